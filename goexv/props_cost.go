package main

import (
	"fmt"
	"sort"
	"strings"
)

// P31: encoding finishes after polynomially many steps.

type cost struct{ clauses, lits, steps int }

func (k cost) String() string { return fmt.Sprintf("%d clauses, %d literals", k.clauses, k.lits) }

func costOf(s, c [][]int, steps int) cost {
	k := cost{steps: steps}
	for _, cs := range [][][]int{s, c} {
		k.clauses += len(cs)
		for _, cl := range cs {
			k.lits += len(cl)
		}
	}
	return k
}

// grows decides whether doubling the size multiplied the cost by more than a
// polynomial of degree d would.
func grows(small, big cost, d uint) (string, bool) {
	lim := 1 << d
	base := 64 // lower-order terms
	switch {
	case big.clauses > lim*small.clauses+base:
		return fmt.Sprintf("the clauses grow from %d to %d", small.clauses, big.clauses), true
	case big.lits > lim*2*small.lits+base:
		return fmt.Sprintf("the literals grow from %d to %d", small.lits, big.lits), true
	case big.steps > lim*2*small.steps+1000:
		return fmt.Sprintf("the loop iterations grow from %d to %d", small.steps, big.steps), true
	}
	return "", false
}

func chainTree(dim int, zero bool) *tree {
	t := &tree{feat: -1, val: true}
	for i := 0; i < dim; i++ {
		l := &tree{feat: -1, val: i%2 == 0}
		if zero {
			t = &tree{feat: i, z: t, o: l}
		} else {
			t = &tree{feat: i, z: l, o: t}
		}
	}
	return t
}

func fullTree(depth int) *tree {
	k := 0
	var f func(i int) *tree
	f = func(i int) *tree {
		if i == depth {
			k++
			return &tree{feat: -1, val: k%2 == 0}
		}
		return &tree{feat: i, z: f(i + 1), o: f(i + 1)}
	}
	return f(0)
}

func (a *Analyzer) checkCost(r *Report) {
	r.reason = "Every Encoding summary is instantiated on families of growing size (dimension, chain-shaped and complete trees, nesting depth); the number of clauses, literals and loop iterations may grow at most by the factor a fixed-degree polynomial allows when the size doubles. Sub-queries are counted per encoding. Loops of the summaries that do not end on a decision tree are reported, as is any cycle of library calls below an Encoding method that does not descend into a sub-query and is not bounded on the instances."
	// the lists of these instances stay below a thousand elements
	defer func(l int) { seqLimit = l }(seqLimit)
	seqLimit = 1 << 13
	comps := a.components(encPkgs...)
	for _, c := range comps {
		a.Summarise(c.encode)
	}
	var jobs []func()
	for _, c := range comps {
		c := c
		jobs = append(jobs, func() { a.componentCost(r, c) })
	}
	jobs = append(jobs, func() { a.operatorCost(r) }, func() { a.nestingCost(r) }, func() { a.quantCost(r) }, func() { a.specialCost(r) })
	r.parallel(jobs)
}

func (a *Analyzer) costInst(r *Report, x *inst, what string) (cost, bool) {
	var k cost
	ok := false
	r.guard(x.c.String(), func() {
		s, c, _, err, stop, m := a.encodeInst(x, NewSpecCtx())
		r.use(m)
		if stop != nil {
			r.stop("termination", x.c.String(), stop, what)
			return
		}
		if err != nil {
			r.bad("termination:error", x.c.short, x.c.where, "encoding a valid query fails with "+vkey(err)+" ("+what+")")
			return
		}
		k, ok = costOf(s, c, int(m.iters)), true
		r.ok("termination", 1)
	})
	return k, ok
}

func (a *Analyzer) componentCost(r *Report, c *component) {
	mkInst := func(m *model, k int) *inst {
		x := &inst{c: c, m: m, flag: k&1 == 1}
		n := 0
		for i, o := range c.ops {
			if o.isVar {
				x.vars, x.consts = append(x.vars, []string{"x", "y", "z"}[n]), append(x.consts, nil)
				n++
				continue
			}
			v := make([]int, m.dim)
			for j := range v {
				switch k % 4 {
				case 0:
					v[j] = 0
				case 1:
					v[j] = 1 + (i+j)%2
				case 2:
					v[j] = (i + j) % 3
				default:
					v[j] = 2 - i%2
				}
			}
			x.vars, x.consts = append(x.vars, ""), append(x.consts, v)
		}
		if c.pref {
			x.pref = iota2(m.dim)
			if k&1 == 1 {
				sort.Sort(sort.Reverse(sort.IntSlice(x.pref)))
			}
		}
		return x
	}
	// growing dimension
	sizes := []int{2, 4, 8, 16}
	if r.thorough() {
		sizes = append(sizes, 32)
	}
	deg := uint(4)
	shapes := []string{"plain"}
	if c.tree {
		shapes = []string{"zero chain", "one chain"}
	}
	for _, sh := range shapes {
		for k := 0; k < 4; k++ {
			var prev cost
			for i, d := range sizes {
				m := &model{dim: d, name: fmt.Sprintf("dim %d", d)}
				if c.tree {
					m = mkModel(d, chainTree(d, sh == "zero chain"), k%3)
				}
				cur, ok := a.costInst(r, mkInst(m, k), fmt.Sprintf("%s on %s of dimension %d", c, sh, d))
				if !ok {
					return
				}
				if i > 1 {
					if what, bad := grows(prev, cur, deg); bad {
						r.bad("polynomial size", c.short, c.where, fmt.Sprintf("%s when the dimension doubles to %d (%s)", what, d, sh))
						return
					}
					r.ok("polynomial size", 1)
				}
				prev = cur
			}
		}
	}
	if !c.tree {
		return
	}
	// growing number of nodes
	depth := 6
	if r.thorough() {
		depth = 7
	}
	for k := 0; k < 4; k++ {
		var prev cost
		for d := 1; d <= depth; d++ {
			m := mkModel(depth, fullTree(d), k%3)
			cur, ok := a.costInst(r, mkInst(m, k), fmt.Sprintf("%s on a complete tree of depth %d", c, d))
			if !ok {
				return
			}
			if d > 2 {
				if what, bad := grows(prev, cur, deg); bad {
					r.bad("polynomial size", c.short, c.where, fmt.Sprintf("%s when the number of nodes doubles to %d", what, len(m.nodes)))
					return
				}
				r.ok("polynomial size", 1)
			}
			prev = cur
		}
	}
	// termination on arbitrary trees and layouts
	n := 60
	if r.thorough() {
		n = 600
	}
	for i, m := range append(models(2, 0, 0), models(5, n, 9)...) {
		if _, ok := a.costInst(r, mkInst(m, i), c.String()+" on "+m.name); !ok {
			return
		}
	}
}

// sized is a sub-query with k clauses of width w.
func (a *Analyzer) sized(name string, k, w int, n *int) Val {
	return oracle(name, func(m *Machine) (Val, Val) {
		*n++
		var s [][]int
		for i := 0; i < k; i++ {
			var cl []int
			for j := 0; j < w; j++ {
				cl = append(cl, m.alloc(name, int64(i), int64(j)))
			}
			s = append(s, cl)
		}
		return a.mkCNF(maxAbs(s), s, nil), nil
	})
}

func (a *Analyzer) encodeCost(r *Report, m *Machine, q Val, fn, where, what string) (cost, bool) {
	res, err, stop := m.Encode(q, ctxOV())
	r.use(m)
	if stop != nil {
		r.stop("termination", fn, stop, what)
		return cost{}, false
	}
	if err != nil {
		r.bad("termination:error", fn, where, "encoding a valid query fails with "+vkey(err)+" ("+what+")")
		return cost{}, false
	}
	_, s, c := a.cnfParts(res)
	r.ok("termination", 1)
	return costOf(s, c, int(m.iters)), true
}

func (a *Analyzer) operatorCost(r *Report) {
	for _, name := range []string{"And", "Or", "Not", "WithVar"} {
		fn, where := a.encWhere("query/logop", name)
		r.guard(name, func() {
			t := a.typeOf("query/logop", name)
			for _, w := range []int{1, 2, 5} {
				var prev cost
				for i, k := range []int{4, 8, 16, 32} {
					var n1, n2 int
					kv := map[string]Val{}
					want := 1
					switch name {
					case "And", "Or":
						kv["Q1"], kv["Q2"] = a.sized("left", k, w, &n1), a.sized("right", k, w, &n2)
						want = 2
					default:
						kv["Q"] = a.sized("child", k, w, &n1)
					}
					if name == "WithVar" {
						kv["I"] = "x"
					}
					m := NewMachine(a, 4, nil)
					cur, ok := a.encodeCost(r, m, mkStruct(t, kv), fn, where, fmt.Sprintf("%s over %d clauses of width %d", name, k, w))
					if !ok {
						return
					}
					if n1+n2 != want || want == 2 && n1 != 1 {
						r.bad("sub-queries encoded once", fn, where, fmt.Sprintf("%d sub-query encodings for %d sub-queries of %s", n1+n2, want, name))
						return
					}
					r.ok("sub-queries encoded once", 1)
					if i > 0 {
						if what, bad := grows(prev, cur, 3); bad {
							r.bad("polynomial size", fn, where, fmt.Sprintf("%s when the sub-query's size doubles to %d clauses of width %d", what, k, w))
							return
						}
						r.ok("polynomial size", 1)
					}
					prev = cur
				}
			}
			if name == "WithVar" {
				var prev cost
				for i, d := range []int{4, 8, 16, 32} {
					n := 0
					m := NewMachine(a, d, nil)
					cur, ok := a.encodeCost(r, m, mkStruct(t, map[string]Val{"I": "x", "Q": a.sized("child", 1, 1, &n)}), fn, where, fmt.Sprintf("WithVar in dimension %d", d))
					if !ok {
						return
					}
					if i > 0 {
						if what, bad := grows(prev, cur, 3); bad {
							r.bad("polynomial size", fn, where, fmt.Sprintf("%s when the dimension doubles to %d", what, d))
							return
						}
					}
					prev = cur
				}
			}
		})
	}
}

// specialCost counts encodings of sub-queries with special formulas.
func (a *Analyzer) specialCost(r *Report) {
	bodies := []struct {
		name string
		f    func(m *Machine) Val
	}{
		{"true", func(m *Machine) Val { return a.mkCNF(0, nil, nil) }},
		{"false", func(m *Machine) Val { return a.mkCNF(0, [][]int{{}}, nil) }},
		{"a literal", func(m *Machine) Val { p := m.alloc("p", 0, 0); return a.mkCNF(p, [][]int{{p}}, nil) }},
		{"a clause", func(m *Machine) Val {
			p, q := m.alloc("p", 0, 0), m.alloc("q", 0, 0)
			return a.mkCNF(q, [][]int{{p, -q}}, nil)
		}},
		{"consistency clauses only", func(m *Machine) Val {
			p, q := m.alloc("p", 0, 0), m.alloc("q", 0, 0)
			return a.mkCNF(q, nil, [][]int{{p, q}, {-p, -q}})
		}},
		{"false with consistency clauses", func(m *Machine) Val {
			p := m.alloc("p", 0, 0)
			return a.mkCNF(p, [][]int{{}}, [][]int{{p}})
		}},
	}
	md := []*model{mkModel(2, &tree{feat: -1, val: true}, 0), mkModel(2, fullTree(1), 0), mkModel(2, chainTree(2, true), 1), mkModel(2, fullTree(2), 2)}
	for _, name := range []string{"And", "Or", "Not", "WithVar", "ForAllGuarded"} {
		fn, where := a.encWhere("query/logop", name)
		t := a.typeOf("query/logop", name)
		for _, b1 := range bodies {
			for _, b2 := range bodies {
				for mi, m0 := range md {
					kids := 1
					if name == "And" || name == "Or" {
						kids = 2
					}
					if kids == 1 && b1.name != b2.name || name != "ForAllGuarded" && mi > 0 {
						continue
					}
					for depth := 1; depth <= 3; depth++ {
						want := []int{1, kids - 1}
						n := []int{0, 0}
						leaf := func(i int) Val {
							f := b1.f
							if i == 1 {
								f = b2.f
							}
							return oracle(fmt.Sprintf("child %d", i), func(m *Machine) (Val, Val) { n[i]++; return f(m), nil })
						}
						q := leaf(0)
						for d := 0; d < depth; d++ {
							kv := map[string]Val{}
							switch {
							case kids == 2:
								kv["Q1"], kv["Q2"] = q, leaf(1)
								want[1] = d + 1
							case name == "WithVar":
								kv["I"], kv["Q"] = "x", q
							case name == "ForAllGuarded":
								kv["I"], kv["Q"] = a.qconst(fmt.Sprintf("c%d", d), nil), q
								want[0] *= len(m0.nodes)
							default:
								kv["Q"] = q
							}
							q = mkStruct(t, kv)
						}
						if want[0] > 400 {
							continue
						}
						inst := fmt.Sprintf("%d nested %s over %s", depth, name, b1.name)
						if kids == 2 {
							inst += " and " + b2.name
						}
						if name == "ForAllGuarded" {
							inst += " on " + m0.name
						}
						m := NewMachine(a, m0.dim, a.nodeVals(m0.nodes))
						_, err, stop := m.Encode(q, ctxOV())
						r.use(m)
						if stop != nil {
							r.stop("termination", fn, stop, inst)
							return
						}
						if err != nil {
							r.bad("termination:error", fn, where, "encoding a valid query fails with "+vkey(err)+" ("+inst+")")
							return
						}
						if n[0] > want[0] || n[1] > want[1] {
							r.bad("sub-queries encoded once", fn, where, fmt.Sprintf("%d sub-query encodings instead of %d (%s)", n[0]+n[1], want[0]+want[1], inst))
							return
						}
						r.ok("sub-queries encoded once", 1)
					}
				}
			}
		}
	}
}

// nestingCost measures deep compositions.
func (a *Analyzer) nestingCost(r *Report) {
	wrap := map[string]func(q Val, n *int) Val{
		"Not": func(q Val, n *int) Val { return mkStruct(a.typeOf("query/logop", "Not"), map[string]Val{"Q": q}) },
		"And": func(q Val, n *int) Val {
			return mkStruct(a.typeOf("query/logop", "And"), map[string]Val{"Q1": q, "Q2": a.sized("leaf", 2, 2, n)})
		},
		"Or": func(q Val, n *int) Val {
			return mkStruct(a.typeOf("query/logop", "Or"), map[string]Val{"Q1": q, "Q2": a.sized("leaf", 2, 2, n)})
		},
		"right Or": func(q Val, n *int) Val {
			return mkStruct(a.typeOf("query/logop", "Or"), map[string]Val{"Q1": a.sized("leaf", 2, 2, n), "Q2": q})
		},
		"WithVar": func(q Val, n *int) Val {
			return mkStruct(a.typeOf("query/logop", "WithVar"), map[string]Val{"I": "x", "Q": q})
		},
		"Not And": func(q Val, n *int) Val {
			return mkStruct(a.typeOf("query/logop", "Not"), map[string]Val{"Q": mkStruct(a.typeOf("query/logop", "And"), map[string]Val{"Q1": q, "Q2": a.sized("leaf", 2, 2, n)})})
		},
	}
	var names []string
	for n := range wrap {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, name := range names {
		op := strings.Fields(name)
		fn, where := a.encWhere("query/logop", op[len(op)-1])
		r.guard(name, func() {
			var prev cost
			for i, d := range []int{3, 6, 12, 24} {
				n := 0
				q := a.sized("bottom", 2, 2, &n)
				leaves := 1
				for j := 0; j < d; j++ {
					q = wrap[name](q, &n)
					if strings.Contains(name, "And") || strings.Contains(name, "Or") {
						leaves++
					}
				}
				m := NewMachine(a, 3, nil)
				cur, ok := a.encodeCost(r, m, q, fn, where, fmt.Sprintf("%d nested %s", d, name))
				if !ok {
					return
				}
				if n != leaves {
					r.bad("sub-queries encoded once", fn, where, fmt.Sprintf("%d sub-query encodings for %d sub-queries in %d nested %s", n, leaves, d, name))
					return
				}
				if i > 0 {
					if what, bad := grows(prev, cur, 4); bad {
						r.bad("polynomial size", fn, where, fmt.Sprintf("%s when the nesting of %s doubles to %d", what, name, d))
						return
					}
					r.ok("polynomial size", 1)
				}
				prev = cur
			}
		})
	}
}

func (a *Analyzer) quantCost(r *Report) {
	fn, where := a.encWhere("query/logop", "ForAllGuarded")
	ft := a.typeOf("query/logop", "ForAllGuarded")
	mk := func(depth int, n *int) Val {
		q := a.sized("body", 2, 2, n)
		for i := 0; i < depth; i++ {
			q = mkStruct(ft, map[string]Val{"I": a.qconst(fmt.Sprintf("c%d", i), nil), "Q": q})
		}
		return q
	}
	var ms []*model
	for d := 1; d <= 5; d++ {
		ms = append(ms, mkModel(5, fullTree(d), d%3), mkModel(5, chainTree(d, d%2 == 0), d%3))
	}
	ms = append(ms, models(2, 0, 0)...)
	nr := 30
	if r.thorough() {
		nr = 300
	}
	ms = append(ms, models(5, nr, 4)...)
	for depth := 1; depth <= 2; depth++ {
		for _, m := range ms {
			nn := len(m.nodes)
			want := nn
			if depth == 2 {
				want = nn * nn
			}
			if want > 400 {
				continue
			}
			r.guard("ForAllGuarded", func() {
				n := 0
				mm := NewMachine(a, m.dim, a.nodeVals(m.nodes))
				cur, ok := a.encodeCost(r, mm, mk(depth, &n), fn, where, fmt.Sprintf("%d nested quantifiers on %s", depth, m.name))
				if !ok {
					return
				}
				if n != want {
					r.bad("sub-queries encoded once per node", fn, where, fmt.Sprintf("%d encodings of the body for %d nodes under %d quantifiers (%s)", n, nn, depth, m.name))
					return
				}
				r.ok("sub-queries encoded once per node", 1)
				if cur.clauses > 8*n+64 {
					r.bad("polynomial size", fn, where, fmt.Sprintf("%d clauses for %d instances of a body of two clauses (%s)", cur.clauses, n, m.name))
				}
			})
		}
	}
}
