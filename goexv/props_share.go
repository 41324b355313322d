package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// P20: components given the same naming function.

// scopedInst is an instance encoded inside the given scopes.
type scopedInst struct {
	*inst
	scopes []scp
	local  []string // variables declared in the innermost scope
}

func (s *scopedInst) String() string {
	if len(s.scopes) == 0 {
		return s.inst.String()
	}
	var ss []string
	for _, x := range s.scopes {
		ss = append(ss, fmt.Sprintf("%s#%d", x.tgt, x.idx))
	}
	return s.inst.String() + " in " + strings.Join(ss, "/")
}

func sharedGens(a, b *component) []string {
	var out []string
	for _, x := range a.gens {
		for _, y := range b.gens {
			if x == y {
				out = append(out, x)
			}
		}
	}
	return out
}

func (a *Analyzer) checkSharing(r *Report) {
	r.reason = "Encoding methods are summarised to clause schemas. For every ordered pair of components that take a naming function under the same name, both schemas are instantiated in one context with the same (injective) naming function, over a family of shared and distinct operands, constants, preference sequences, trees and scopes; under the union of both consistency clause sets every valuation must stay possible and each component, plain and negated, must keep its own meaning. Separately the arguments handed to the naming functions are compared: different operands or preference sequences must be told apart."
	comps := a.components(encPkgs...)
	for _, c := range comps {
		a.Summarise(c.encode)
	}
	var jobs []func()
	for _, c1 := range comps {
		for _, c2 := range comps {
			if c1.tree != c2.tree || len(sharedGens(c1, c2)) == 0 {
				continue
			}
			c1, c2 := c1, c2
			maxDim := 2
			if len(c1.ops) == 2 || c1.tree {
				maxDim = 3
			}
			if c1.tree && r.thorough() {
				maxDim = 4
			}
			for dim := 1; dim <= maxDim; dim++ {
				dim := dim
				jobs = append(jobs, func() { a.sharePair(r, c1, c2, dim) })
			}
		}
	}
	for _, c := range comps {
		if !c.pref {
			continue
		}
		for _, d := range comps {
			if !d.pref || len(sharedGens(c, d)) == 0 {
				continue
			}
			c, d := c, d
			jobs = append(jobs, func() { a.shareWide(r, c, d) })
			jobs = append(jobs, func() { a.sharePrefs(r, c, d) })
		}
	}
	for _, c1 := range comps {
		for _, c2 := range comps {
			if c1.tree != c2.tree || len(sharedGens(c1, c2)) == 0 {
				continue
			}
			limit := 130
			if r.thorough() {
				limit = 260
			}
			dims := append([]int{12, 20}, around(a.sizes(limit, c1.pkg, c2.pkg, "query"))...)
			for _, n := range a.narrow(260, c1.pkg, c2.pkg, "query") {
				dims = append(dims, n, n+1)
			}
			c1, c2 := c1, c2
			for _, dim := range dims {
				dim := dim
				jobs = append(jobs, func() { a.shareFar(r, c1, c2, dim) })
			}
		}
	}
	for _, c := range comps {
		if len(c.gens) > 0 {
			c := c
			jobs = append(jobs, func() { a.nameArgs(r, c) })
		}
	}
	r.parallel(jobs)
}

// shareInst draws an instance of c.
func shareInst(rd *rand.Rand, c *component, m *model, consts [][]int, first bool) *inst {
	x := &inst{c: c, m: m}
	names := []string{"x", "y"}
	if len(c.ops) == 3 && rd.Intn(3) == 0 {
		names = append(names, "z")
	}
	for _, o := range c.ops {
		if o.isVar {
			x.vars, x.consts = append(x.vars, names[rd.Intn(len(names))]), append(x.consts, nil)
		} else {
			x.vars, x.consts = append(x.vars, ""), append(x.consts, consts[rd.Intn(len(consts))])
		}
	}
	if c.pref && m.dim < 6 {
		ps := perms(m.dim)
		x.pref = ps[rd.Intn(len(ps))]
	}
	if c.flag != "" {
		x.flag = rd.Intn(2) == 0
	}
	x.gen = map[string]Val{}
	for _, g := range c.gens {
		x.gen[g] = &FV{name: g, sym: c.pkg == "leh"}
	}
	return x
}

func (a *Analyzer) sharePair(r *Report, c1, c2 *component, dim int) {
	rd := rand.New(rand.NewSource(int64(dim)*1000 + int64(len(c1.name))*7 + int64(len(c2.name))))
	var ms []*model
	n := 30
	if len(c1.ops) == 3 {
		n = 25
	}
	if c1.tree {
		ms = models(dim, 20, int64(dim)*5)
		n = 100
	} else {
		ms = []*model{{dim: dim, name: fmt.Sprintf("dim %d", dim)}}
	}
	if r.thorough() {
		n *= 5
	}
	all := vectors(dim)
	for i := 0; i < n; i++ {
		m := ms[i%len(ms)]
		cs := pickVecs(all, 3, int64(i))
		if i%3 == 0 {
			cs = all
		}
		if c1.pkg == "leh" && i%2 == 0 {
			cs = nil
			for _, v := range all {
				if isFullV(v) {
					cs = append(cs, v)
				}
			}
		}
		x, y := shareInst(rd, c1, m, cs, true), shareInst(rd, c2, m, cs, false)
		sx, sy := &scopedInst{inst: x}, &scopedInst{inst: y}
		switch i % 5 {
		case 1, 2: // two iterations of the same quantifier
			sx.scopes = []scp{{tgt: "q", idx: 0, val: intVals(make([]int, dim))}}
			sy.scopes = []scp{{tgt: "q", idx: 1, val: intVals(make([]int, dim))}}
			if i%5 == 2 {
				sx.local, sy.local = []string{"x"}, []string{"x"}
			}
			// constants bound by an inner scope
			x.scoped, y.scoped = true, true
		case 3: // one inside, one outside
			sx.scopes = []scp{{tgt: "q", idx: 2, val: intVals(make([]int, dim))}}
			sx.local = []string{"y"}
		}
		a.decideShared(r, []*scopedInst{sx, sy}, all, "shared names")
	}
}

// decideShared encodes the instances one after the other in one context.
func (a *Analyzer) decideShared(r *Report, xs []*scopedInst, vecs [][]int, rule string) {
	var ss []string
	for _, x := range xs {
		ss = append(ss, x.String())
	}
	desc := strings.Join(ss, " and ")
	r.guard(xs[0].c.String()+"+"+xs[1].c.String(), func() {
		ctx := NewSpecCtx()
		type enc struct {
			s     [][]int
			names []string
		}
		var encs []enc
		var cons [][]int
		var names []string
		for _, x := range xs {
			for _, s := range x.scopes {
				ctx.event(nil, "AddScope", []Val{s.tgt})
				ctx.event(nil, "SetScope", []Val{s.idx, s.val})
			}
			for _, v := range x.local {
				ctx.event(nil, "AddVar", []Val{v})
			}
			open := len(x.scopes)
			if x.scoped {
				for i, c := range x.consts {
					if c != nil {
						ctx.event(nil, "AddScope", []Val{fmt.Sprintf("c%d", i)})
						ctx.event(nil, "SetScope", []Val{int64(i), intVals(c)})
						open++
					}
				}
			}
			e := enc{}
			for _, v := range x.vars {
				if v != "" {
					e.names = append(e.names, ctx.scopeVar(v))
				} else {
					e.names = append(e.names, "")
				}
			}
			names = append(names, e.names...)
			s, c, _, err, stop, m := a.encodeInst(x.inst, ctx)
			r.use(m)
			if stop != nil {
				r.stop(rule, x.c.String(), stop, desc)
				return
			}
			if err != nil {
				r.bad(rule+":error", x.c.short, x.c.where, "encoding a valid query fails with "+vkey(err)+" ("+desc+")")
				return
			}
			for ; open > 0; open-- {
				ctx.event(nil, "PopScope", nil)
			}
			e.s = s
			cons = append(cons, c...)
			encs = append(encs, e)
		}
		names = distinctVars(names)
		if len(names) > 3 && len(vecs) > 3 || len(names) == 3 && len(vecs) > 30 {
			vecs = pickVecs(vecs, 5, int64(len(desc)))
		}
		for i, x := range xs {
			e := encs[i]
			n, bad := decideFormula(e.s, cons, ctx, names, vecs, func(val map[string][]int) bool {
				in := specIn{m: x.m, flag: x.flag, pref: x.pref}
				for k := range x.c.ops {
					if x.c.ops[k].isVar {
						in.v = append(in.v, val[e.names[k]])
					} else {
						in.v = append(in.v, x.consts[k])
					}
				}
				return specs[x.c.pkg](in)
			})
			r.ok(rule+" "+x.c.pkg, n)
			if bad != "" {
				other := xs[1-i].c
				r.bad(rule, x.c.short, x.c.where, fmt.Sprintf("%s of %s when combined with %s (%s, %s)", bad, x.c, other, desc, other.where))
				return
			}
		}
	})
}

// shareWide combines preferences over features with several digits.
func (a *Analyzer) shareWide(r *Report, c, d *component) {
	const dim = 13
	m := &model{dim: dim, name: "dim 13"}
	pairs := [][2][]int{{{1, 2}, {12}}, {{12}, {1, 2}}, {{1, 12}, {11, 2}}, {{1, 1 + 1, 12}, {1, 2}}, {{2, 1}, {1, 2}}, {{0, 1}, {1, 0}}, {{1, 11}, {11, 1}}, {{1, 2}, {1, 3}}, {{1}, {0, 1}}, {{10, 1}, {1, 0, 1 + 1}}, {{0, 2}, {2}}, {{11, 2}, {1, 12}}}
	for pi, pp := range pairs {
		feats := map[int]bool{}
		for _, p := range pp {
			for _, f := range p {
				feats[f] = true
			}
		}
		vecs := [][]int{make([]int, dim)}
		for f := range dim {
			if feats[f] {
				var nx [][]int
				for i, v := range vecs {
					w := append([]int{}, v...)
					w[f] = 1 + i%2
					nx = append(nx, v, w)
				}
				vecs = nx
			}
		}
		x, y := &inst{c: c, m: m, pref: pp[0]}, &inst{c: d, m: m, pref: pp[1]}
		for k, z := range []*inst{x, y} {
			n := 0
			for _, o := range z.c.ops {
				if o.isVar {
					z.vars, z.consts = append(z.vars, []string{"x", "y"}[n]), append(z.consts, nil)
					n++
				} else {
					z.vars, z.consts = append(z.vars, ""), append(z.consts, vecs[(pi*5+3*k)%len(vecs)])
				}
			}
			if k == 1 {
				for i, o := range z.c.ops {
					if !o.isVar && i < len(x.consts) && x.consts[i] != nil {
						z.consts[i] = x.consts[i]
					}
				}
			}
		}
		a.decideShared(r, []*scopedInst{{inst: x}, {inst: y}}, vecs, "shared names")
	}
}

// longName is a name that differs from others of its kind in its last
// characters only.
func longName(v string) string { return strings.Repeat("feature", 12) + v }

// sharePrefs combines preferences with large feature indexes.
func (a *Analyzer) sharePrefs(r *Report, c, d *component) {
	const dim = 300
	m := &model{dim: dim, name: "dim 300"}
	base := make([]int, dim)
	vecs := [][]int{base}
	for _, i := range []int{1, 44, 257, 299} {
		v, w := append([]int{}, base...), append([]int{}, vecs[len(vecs)-1]...)
		v[i], w[i] = 1, 1
		vecs = append(vecs, v, w)
	}
	for _, p := range [][2][]int{{{1}, {257}}, {{44}, {300 - 1}}, {{257}, {25}}, {{257, 1}, {1, 257}}, {{127, 129}, {129, 127}}, {{255}, {1}}} {
		x, y := &inst{c: c, m: m, pref: p[0]}, &inst{c: d, m: m, pref: p[1]}
		for _, z := range []*inst{x, y} {
			for j, o := range z.c.ops {
				if o.isVar {
					z.vars, z.consts = append(z.vars, []string{"x", "y", "z"}[j]), append(z.consts, nil)
				} else {
					z.vars, z.consts = append(z.vars, ""), append(z.consts, vecs[3])
				}
			}
		}
		a.decideShared(r, []*scopedInst{{inst: x}, {inst: y}}, vecs, "shared names")
	}
}

// shareFar combines instances of a large dimension that differ in features
// near either end.
func (a *Analyzer) shareFar(r *Report, c, d *component, dim int) {
	rd := rand.New(rand.NewSource(int64(dim)*31 + int64(len(c.name))*7 + int64(len(d.name))))
	ms := []*model{{dim: dim, name: fmt.Sprintf("dim %d", dim)}}
	if c.tree {
		ms = wideModels(dim)
	}
	n := 4
	if dim > 12 {
		n = 2
	}
	if r.thorough() {
		n *= 4
	}
	up, down := iota2(dim), make([]int, dim)
	for i := range down {
		down[i] = dim - 1 - i
	}
	prefs := [][2][]int{{up, append(iota2(dim-2), dim-1, dim-2)}, {{dim - 1}, {(dim - 1) % 10}}, {down, up}, {append([]int{dim - 1}, iota2(dim-2)...), up}, {iota2(dim - 1), up}, {{dim - 1}, {dim - 2}}, {up[1:], up}, {{dim - 1}, {0}}}
	if c.pref {
		n = min(2*n, len(prefs))
	}
	for i := 0; i < n; i++ {
		m := ms[i%len(ms)]
		vecs := wideVecs(dim, 11, int64(dim)*7+1)
		if c.tree {
			vecs = append(treeVecs(m, 8), vecs[0], vecs[4])
		}
		near := [][]int{vecs[0], vecs[1], vecs[len(vecs)-1]}
		if !c.tree {
			// one of them differs from the first in its last feature only
			near = [][]int{vecs[0], vecs[2], vecs[10], vecs[1], vecs[7]}
		}
		x, y := shareInst(rd, c, m, near, true), shareInst(rd, d, m, near, false)
		for k, z := range []*inst{x, y} {
			if z.c.pref {
				z.pref = prefs[i%len(prefs)][k]
			}
			for j, v := range z.vars {
				// the same variable, so that only the constants differ
				if v != "" && i%2 == 0 {
					z.vars[j] = []string{"x", "y", "z"}[j]
				}
				if v != "" && c.tree && i%4 == 0 {
					z.vars[j] = []string{"x", "y"}[k]
				}
				if v != "" && dim == 12 {
					z.vars[j] = longName(z.vars[j])
				}
			}
			ci := i
			for j, v := range z.consts {
				if v != nil && !c.tree {
					z.consts[j] = near[(ci+k)%len(near)]
					ci++
				}
			}
		}
		if k := len(distinctVars(append(append([]string{}, x.vars...), y.vars...))); k > 1 && !r.thorough() {
			vecs = append(near[:min(len(near), 6-k)], vecs[4])
		}
		a.decideShared(r, []*scopedInst{{inst: x}, {inst: y}}, vecs, "shared names")
	}
}

// alikeLists are lists of features below 300 whose decimal digits are easily
// taken for one another's when written one after the other.
func alikeLists(thorough bool) [][]int {
	small := []int{0, 1, 2, 10, 11, 20, 100, 101, 102, 110, 200, 210}
	large := append([]int{3, 12, 13, 21, 22, 111, 112, 120, 121, 122, 201, 202, 203, 211, 212, 220, 221, 255, 256, 257, 299}, small...)
	var out [][]int
	var rec func(p, from []int, left int)
	rec = func(p, from []int, left int) {
		if len(p) > 0 {
			out = append(out, p)
		}
		if left == 0 {
			return
		}
	next:
		for _, x := range from {
			for _, y := range p {
				if x == y {
					continue next
				}
			}
			rec(append(p[:len(p):len(p)], x), from, left-1)
		}
	}
	if thorough {
		rec(nil, small[:9], 4)
		rec(nil, large, 3)
	} else {
		rec(nil, small, 3)
		rec(nil, large, 2)
	}
	seen := map[string]bool{}
	uniq := out[:0]
	for _, p := range out {
		if k := fmt.Sprint(p); !seen[k] {
			seen[k] = true
			uniq = append(uniq, p)
		}
	}
	return uniq
}

// nameArgs checks that the arguments of the naming functions tell the
// quantities apart.
func (a *Analyzer) nameArgs(r *Report, c *component) {
	dims := []int{2, 13}
	if c.pref {
		dims = append(dims, 300)
	}
	type seen struct{ what, inst string }
	for _, dim := range dims {
		byArgs := map[string]seen{}
		m := &model{dim: dim, name: fmt.Sprintf("dim %d", dim)}
		if c.tree {
			m = models(2, 3, 1)[20]
			if dim != 2 {
				continue
			}
		}
		var consts [][]int
		if dim == 2 {
			consts = vectors(2)
		} else {
			consts = [][]int{make([]int, dim)}
		}
		prefs := [][]int{nil}
		if c.pref {
			if dim == 2 {
				prefs = perms(2)
			} else if dim == 300 {
				prefs = alikeLists(r.thorough())
			} else {
				prefs = [][]int{{1, 2}, {12}, {1, 12}, {11, 2}, {2, 1}, {1, 11}, {11, 1}, {10, 1}, {1, 0, 1 + 1}}
			}
		}
		var rec func(i int, vs []string, cs [][]int)
		rec = func(i int, vs []string, cs [][]int) {
			if i < len(c.ops) {
				if c.ops[i].isVar {
					for _, v := range []string{"x", "y"} {
						if dim == 300 && v != []string{"x", "y"}[i%2] {
							continue
						}
						rec(i+1, append(append([]string{}, vs...), v), append(append([][]int{}, cs...), nil))
					}
				} else {
					for _, v := range consts {
						rec(i+1, append(append([]string{}, vs...), ""), append(append([][]int{}, cs...), v))
					}
				}
				return
			}
			for _, p := range prefs {
				for it := 0; it < 2; it++ {
					if it == 1 && dim == 300 {
						break
					}
					x := &inst{c: c, m: m, vars: vs, consts: cs, pref: p}
					r.guard(c.String(), func() {
						ctx := NewSpecCtx()
						ctx.event(nil, "AddScope", []Val{"q"})
						ctx.event(nil, "SetScope", []Val{int64(it), intVals(make([]int, dim))})
						ctx.event(nil, "AddVar", []Val{"x"})
						mm := NewMachine(a, dim, a.nodeVals(m.nodes))
						mm.ctx = ctx
						type call struct{ args []string }
						var calls []call
						mm.fnv = func(f *FV, name string, args []Val) Val {
							var ss []string
							for _, v := range args {
								ss = append(ss, toStr(v))
							}
							calls = append(calls, call{ss})
							return genName(f, args)
						}
						_, err, stop := mm.Encode(x.value(a), ctxOV())
						r.use(mm)
						if stop != nil {
							r.stop("naming arguments", c.String(), stop, x.String())
							return
						}
						if err != nil {
							return
						}
						// the operands the names may depend on
						id := map[string]bool{}
						for i, v := range vs {
							if v != "" {
								id[ctx.scopeVar(v)] = true
							} else {
								id["const "+vecStr(cs[i])] = true
							}
						}
						for _, cl := range calls {
							// a call names at least one scoped variable operand
							has := false
							for _, s := range cl.args {
								if id[s] {
									has = true
								}
							}
							if !has {
								r.bad("naming arguments", c.short, c.where, fmt.Sprintf("the naming function is called with %q, none of which is a scoped operand (%s, iteration %d)", cl.args, x, it))
								return
							}
							r.ok("naming arguments", 1)
							if c.pref {
								// preference and operands must be told apart
								key := strings.Join(cl.args, "\x00")
								what := fmt.Sprintf("%v %v %v", p, scopedAll(ctx, vs), cs)
								if o, ok := byArgs[key]; ok && o.what != what {
									r.bad("naming arguments", c.short, c.where, fmt.Sprintf("the naming function gets the same arguments %q for %s and %s", cl.args, o.inst, x))
									return
								}
								byArgs[key] = seen{what, x.String()}
								r.ok("naming injective", 1)
							}
						}
					})
				}
			}
		}
		rec(0, nil, nil)
	}
}

func scopedAll(ctx *SpecCtx, vs []string) []string {
	var out []string
	for _, v := range vs {
		if v != "" {
			out = append(out, ctx.scopeVar(v))
		}
	}
	return out
}
