package main

import (
	"fmt"
	"sort"
	"strings"
)

// libOpt are optimum computations over properties and strict orders built
// from the library's own queries.
func (a *Analyzer) libOpt(thorough bool) []optInst {
	cs := map[string]*component{}
	for _, c := range a.components("subsumption", "lel", "full", "cons", "isnode", "allcomp", "dfs", "leh", "hepr") {
		k := c.pkg
		for _, o := range c.ops {
			if o.isVar {
				k += "v"
			} else {
				k += "c"
			}
		}
		cs[k] = c
	}
	op := func(name string, kv map[string]Val) Val { return mkStruct(a.typeOf("query/logop", name), kv) }
	// le builds an application of a component. An operand is the name of a
	// variable or a constant.
	le := func(c *component, m *model, flag bool, opnds ...Val) Val {
		x := &inst{c: c, m: m, flag: flag, pref: somePref(m.dim), vars: make([]string, len(c.ops)), consts: make([][]int, len(c.ops))}
		v := x.value(a).(*SV)
		for i, o := range c.ops {
			v = withField(v, o.field, opnds[i])
		}
		return v
	}
	type order struct {
		name string
		f    func(m *model, q string, c Val) Val
		less func(m *model) func(p, q []int) bool
	}
	var orders []order
	for _, pkg := range []string{"subsumption", "lel"} {
		vc, cv := cs[pkg+"vc"], cs[pkg+"cv"]
		if vc == nil || cv == nil {
			continue
		}
		sp := specs[pkg]
		orders = append(orders, order{"strict " + pkg,
			func(m *model, q string, c Val) Val {
				return op("And", map[string]Val{"Q1": le(vc, m, false, q, c), "Q2": op("Not", map[string]Val{"Q": le(cv, m, false, c, q)})})
			}, func(m *model) func(p, q []int) bool {
				return func(p, q []int) bool {
					return sp(specIn{v: [][]int{p, q}, m: m}) && !sp(specIn{v: [][]int{q, p}, m: m})
				}
			}}, order{"reverse strict " + pkg,
			func(m *model, q string, c Val) Val {
				return op("And", map[string]Val{"Q1": op("Not", map[string]Val{"Q": le(vc, m, false, q, c)}), "Q2": le(cv, m, false, c, q)})
			}, func(m *model) func(p, q []int) bool {
				return func(p, q []int) bool {
					return !sp(specIn{v: [][]int{p, q}, m: m}) && sp(specIn{v: [][]int{q, p}, m: m})
				}
			}})
	}
	if vc, cv := cs["heprvc"], cs["heprcv"]; vc != nil && cv != nil {
		sp := specs["hepr"]
		orders = append(orders, order{"strict hepr", func(m *model, q string, c Val) Val {
			return op("And", map[string]Val{"Q1": le(cv, m, false, c, q), "Q2": op("Not", map[string]Val{"Q": le(vc, m, false, q, c)})})
		}, func(m *model) func(p, q []int) bool {
			return func(p, q []int) bool {
				pr := somePref(m.dim)
				return sp(specIn{v: [][]int{q, p}, m: m, pref: pr}) && !sp(specIn{v: [][]int{p, q}, m: m, pref: pr})
			}
		}})
	}
	if cvc, ccv := cs["lehcvc"], cs["lehccv"]; cvc != nil && ccv != nil {
		sp := specs["leh"]
		far := func(dim int) []int {
			f := make([]int, dim)
			for i := range f {
				f[i] = 1 + i%2
			}
			return f
		}
		orders = append(orders, order{"nearer (full instances)", func(m *model, q string, c Val) Val {
			f := a.qconst("", far(m.dim))
			return op("And", map[string]Val{"Q1": le(cvc, m, false, f, q, c), "Q2": op("Not", map[string]Val{"Q": le(ccv, m, false, f, c, q)})})
		}, func(m *model) func(p, q []int) bool {
			return func(p, q []int) bool {
				f := far(m.dim)
				return sp(specIn{v: [][]int{f, p, q}, m: m}) && !sp(specIn{v: [][]int{f, q, p}, m: m})
			}
		}})
	}
	type prop struct {
		name string
		tree bool
		f    func(m *model, q string) Val
		has  func(m *model, v []int) bool
	}
	var props []prop
	for _, pkg := range []string{"full", "dfs", "allcomp", "isnode"} {
		c := cs[pkg+"v"]
		if c == nil {
			continue
		}
		for _, flag := range []bool{false, true} {
			if flag && c.flag == "" {
				continue
			}
			for _, neg := range []bool{false, true} {
				neg, flag, sp := neg, flag, specs[pkg]
				name := c.String()
				if neg {
					name = "not " + name
				}
				if c.flag != "" {
					name += fmt.Sprintf(" %v", flag)
				}
				props = append(props, prop{name, c.tree, func(m *model, q string) Val {
					v := le(c, m, flag, q)
					if neg {
						v = op("Not", map[string]Val{"Q": v})
					}
					return v
				}, func(m *model, v []int) bool {
					return sp(specIn{v: [][]int{v}, m: m, flag: flag}) != neg
				}})
			}
		}
	}
	if c := cs["subsumptioncv"]; c != nil {
		sp := specs["subsumption"]
		base := func(dim int) []int {
			b := make([]int, dim)
			b[dim-1] = 2
			return b
		}
		props = append(props, prop{c.String(), false, func(m *model, q string) Val {
			return le(c, m, false, a.qconst("", base(m.dim)), q)
		}, func(m *model, v []int) bool { return sp(specIn{v: [][]int{base(m.dim), v}, m: m}) }})
	}
	dims := []int{1, 2, 3}
	per := 2
	if thorough {
		dims, per = []int{1, 2, 3, 4}, 5
	}
	var out []optInst
	n := 0
	for _, dim := range dims {
		all := models(dim, 8, 3)
		for _, p := range props {
			ms := []*model{{dim: dim, name: fmt.Sprintf("dim %d", dim)}}
			if p.tree {
				ms = pickModels(all, per, n)
			}
			for _, m := range ms {
				for oi, o := range orders {
					n++
					if strings.Contains(o.name, "full instances") && !strings.HasPrefix(p.name, "full") {
						continue // the distance is one between full instances
					}
					if !thorough && dim > 1 && p.tree && (n+oi)%2 == 1 {
						continue
					}
					m, p, o := m, p, o
					x := optInst{dim: dim, in: map[string]bool{}, less: o.less(m), nodes: m.nodes,
						name: fmt.Sprintf("property %s, order %s, %s", p.name, o.name, m.name),
						fg:   func(q string) Val { return p.f(m, q) },
						og:   func(q string, c Val) Val { return o.f(m, q, c) },
					}
					for _, v := range vectors(dim) {
						if p.has(m, v) {
							x.in[vecStr(v)] = true
						}
					}
					out = append(out, x)
				}
			}
		}
	}
	return out
}

func somePref(dim int) []int {
	var p []int
	for i := dim - 1; i >= 0; i -= 2 {
		p = append(p, i)
	}
	return p
}

func pickModels(ms []*model, n, off int) []*model {
	if len(ms) <= n {
		return ms
	}
	var out []*model
	for i := 0; i < n; i++ {
		out = append(out, ms[(off*7+i*(len(ms)/n))%len(ms)])
	}
	return out
}

// chains gives for each value with the property the length of the longest
// sequence from it on in which each value precedes the one before it, and the
// values by that length, longest first.
func (x optInst) chains() (vs [][]int, depth []int) {
	for _, v := range vectors(x.dim) {
		if x.in[vecStr(v)] {
			vs = append(vs, v)
		}
	}
	memo := make([]int, len(vs))
	var find func(i int) int
	find = func(i int) int {
		if memo[i] == 0 {
			d := 1
			for j := range vs {
				if x.less(vs[j], vs[i]) {
					d = max(d, 1+find(j))
				}
			}
			memo[i] = d
		}
		return memo[i]
	}
	for i := range vs {
		find(i)
	}
	ix := iota2(len(vs))
	sort.SliceStable(ix, func(i, j int) bool { return memo[ix[i]] > memo[ix[j]] })
	ws := make([][]int, len(vs))
	for i, k := range ix {
		ws[i] = vs[k]
		depth = append(depth, memo[k])
	}
	return ws, depth
}

// checkCalls decides P33.
func (a *Analyzer) checkCalls(r *Report) {
	r.reason = "ComputeOptim is summarised to a loop of solver steps and value retrievals; its summary is composed with those of Step, Values, the formula writer, the logical operators, the library's queries and the context, and with a decision procedure standing for the solver process. Over properties and strict orders, both opaque and built from the library's queries, and several policies of picking models, among them the one that leaves the longest improving sequence, the solver processes started must be at most one more than the longest sequence of values with the property in which each precedes the one before it."
	_, fn, where := a.computeFn(r, "", "ComputeOptim")
	a.computeFn(r, "Solver", "Step")
	a.computeFn(r, "Solver", "Values")
	solver, err := a.newSolver()
	if err != nil {
		r.undecided(err.Error())
		return
	}
	seeds := 4
	if r.thorough() {
		seeds = 12
	}
	xs := append(optInstances(r.thorough()), wideOpt(r.thorough())...)
	var jobs []func()
	for _, x := range append(xs, a.libOpt(r.thorough())...) {
		for sd := 0; sd < seeds; sd++ {
			x, sd := x, int64(sd)
			jobs = append(jobs, func() {
				w := a.newWorld(x.dim, a.nodeVals(x.nodes), a.realCtx())
				w.solver = solver
				vs, depth := x.chains()
				most := 1
				if len(vs) > 0 {
					most += depth[0]
				}
				w.atLeast = most + 3
				w.verdict = func(w *world, text string) (int64, string, bool) {
					k := sd*17 + 5 + int64(len(w.runs))
					if sd == 0 {
						// the model that leaves most to be done
						if nv, cls, ok := parseDIMACS(text); ok {
							nv = max(nv, maxAbs(cls))
							for _, v := range vs {
								var as [][]int
								for i, e := range v {
									as = append(as, []int{w.m.alloc("x", int64(i), int64(e))})
								}
								if maxAbs(as) > nv {
									break
								}
								if s := newCDCL(nv, append(as, cls...), k); s.solve() {
									return s.answer(k)
								}
							}
						}
					}
					code, out := solveText(text, k)
					return code, out, false
				}
				o, stop := w.optimum(x, "x")
				r.use(w.m)
				inst := fmt.Sprintf("%s, model choice %d", x.name, sd)
				n := max(len(w.runs), w.nStep)
				if stop == nil && o.err != nil {
					return // not this property's matter
				}
				if n > most {
					r.bad("solver calls", fn, where, fmt.Sprintf("%d solver calls, though no improving sequence has more than %d values (%s)", n, most-1, inst))
					return
				}
				if stop != nil {
					r.stop("solver calls", fn, stop, inst)
					return
				}
				r.ok("solver calls", 1)
			})
		}
	}
	r.parallel(jobs)
}
