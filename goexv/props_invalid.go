package main

import (
	"fmt"
	"go/types"
	"strings"
)

// P29: invalid queries and models.

func (a *Analyzer) mustReject(r *Report, rule, short, where, what string, dim int, nodes []Node, ctx Ctx, q, ctxArg Val) {
	r.guard(short, func() {
		var nv []Val
		if nodes != nil {
			nv = a.nodeVals(nodes)
		}
		m := NewMachine(a, dim, nv)
		m.ctx = ctx
		_, err, stop := m.Encode(q, ctxArg)
		r.use(m)
		if stop != nil {
			r.stop(rule, short, stop, what)
			return
		}
		r.ok(rule, 1)
		if err == nil {
			r.bad(rule, short, where, "no error for "+what)
		}
	})
}

func (a *Analyzer) checkInvalid(r *Report) {
	r.reason = "Every Encoding method of the library is summarised; the summary is instantiated on every kind of invalid query the property lists, one defect (and pairs of defects) at a time: missing context, child or naming function, constants of every wrong length (given directly or by an enclosing scope), preferences out of range or repeated, empty models, nodes with features or children out of range. The summary must end in an error on each; summaries record every index, slice and nil-dereference obligation, so a possible panic on such an instance is a violation too."
	var jobs []func()
	comps := a.components(encPkgs...)
	for _, c := range comps {
		a.Summarise(c.encode)
	}
	for _, c := range comps {
		c := c
		jobs = append(jobs, func() { a.invalidComponent(r, c) })
	}
	for _, n := range []string{"And", "Or", "Not", "WithVar", "ForAllGuarded"} {
		n := n
		jobs = append(jobs, func() { a.invalidOperator(r, n) })
	}
	r.parallel(jobs)
}

func (a *Analyzer) invalidComponent(r *Report, c *component) {
	dims := []int{1, 2, 3}
	if r.thorough() {
		dims = append(dims, 4, 5)
	}
	limit := 70
	if r.thorough() {
		limit = 300
	}
	dims = append(dims, 12, 66)
	for _, n := range around(a.sizes(limit, c.pkg, "query")) {
		if n > 3 {
			dims = append(dims, n)
		}
	}
	for _, dim := range dims {
		ms := []*model{{dim: dim, name: fmt.Sprintf("dim %d", dim)}}
		if dim > 5 {
			a.invalidWide(r, c, dim)
			continue
		}
		if c.tree {
			all := models(dim, 8, 3)
			ms = nil
			for i := 0; i < len(all); i += 1 + len(all)/8 {
				ms = append(ms, all[i])
			}
		}
		vals := pickVecs(vectors(dim), 6, int64(dim))
		full := make([]int, dim)
		for i := range full {
			full[i] = 1 + i%2
		}
		vals = append(vals, full)
		var prefs [][]int
		if c.pref {
			prefs = pickVecs(perms(dim), 4, 2)
		} else {
			prefs = [][]int{nil}
		}
		for mi, m := range ms {
			for vi, base := range vals {
				for pi, p := range prefs {
					if c.tree && (vi+mi)%2 == 1 || len(prefs) > 1 && (vi+pi)%2 == 1 {
						continue
					}
					mk := func() *inst {
						x := &inst{c: c, m: m, pref: p, flag: vi%2 == 0, gen: map[string]Val{}}
						n := 0
						for _, o := range c.ops {
							if o.isVar {
								x.vars, x.consts = append(x.vars, []string{"x", "y", "z"}[n]), append(x.consts, nil)
								n++
							} else {
								x.vars, x.consts = append(x.vars, ""), append(x.consts, base)
							}
						}
						return x
					}
					a.invalidInsts(r, c, mk, dim, m)
				}
			}
		}
		if c.tree {
			for _, bad := range badModels() {
				for _, base := range vectors(bad.dim) {
					x := &inst{c: c, m: &model{dim: bad.dim}, flag: base[0] == 1}
					for _, o := range c.ops {
						if o.isVar {
							x.vars, x.consts = append(x.vars, "x"), append(x.consts, nil)
						} else {
							x.vars, x.consts = append(x.vars, ""), append(x.consts, base)
						}
					}
					if !c.ops[0].isVar && answerWithout(c, bad, base, x.flag) {
						continue
					}
					what := fmt.Sprintf("a model with %s (dimension %d, operand %s)", bad.name, bad.dim, vecStr(base))
					a.mustReject(r, "invalid model", c.short, c.where, what, bad.dim, bad.nodes, NewSpecCtx(), x.value(a), ctxOV())
				}
			}
		}
	}
}

// invalidWide presents invalid operands of a larger dimension.
func (a *Analyzer) invalidWide(r *Report, c *component, dim int) {
	m := &model{dim: dim, name: fmt.Sprintf("dim %d", dim)}
	if c.tree {
		m = wideModels(dim)[0]
	}
	for k, v := range wideVecs(dim, 2, int64(dim)) {
		var pref []int
		if c.pref {
			for i := 0; i < dim; i += 1 + k {
				pref = append(pref, i)
			}
		}
		mk := func() *inst {
			x := &inst{c: c, m: m, pref: pref, flag: k == 0, gen: map[string]Val{}}
			n := 0
			for _, o := range c.ops {
				if o.isVar {
					x.vars, x.consts = append(x.vars, []string{"x", "y", "z"}[n]), append(x.consts, nil)
					n++
				} else {
					x.vars, x.consts = append(x.vars, ""), append(x.consts, v)
				}
			}
			return x
		}
		a.invalidInsts(r, c, mk, dim, m)
	}
}

func (a *Analyzer) invalidInsts(r *Report, c *component, mk func() *inst, dim int, m *model) {
	nodes := m.nodes
	x := mk()
	a.mustReject(r, "missing context", c.short, c.where, "a nil context in "+x.String(), dim, nodes, NewSpecCtx(), x.value(a), nil)
	for k := 1; k < 1<<len(c.gens); k++ {
		x = mk()
		var ns []string
		for i, g := range c.gens {
			if k>>i&1 == 1 {
				x.gen[g] = nil
				ns = append(ns, g)
			}
		}
		if len(nodes) == 0 && c.tree {
			continue
		}
		if c.pref && len(x.pref) == 0 {
			continue // the function would never be called
		}
		a.mustReject(r, "missing naming function", c.short, c.where, "a nil "+strings.Join(ns, " and ")+" in "+x.String(), dim, nodes, x.context(a), x.value(a), ctxOV())
	}
	// constants of the wrong dimension
	var ci []int
	for i, o := range c.ops {
		if !o.isVar {
			ci = append(ci, i)
		}
	}
	lens := []int{dim + 2, dim + 7, dim + 64, dim + 256}
	for _, n := range around(a.sizes(300, c.pkg, "query")) {
		lens = append(lens, dim+n, n)
		if dim > n {
			lens = append(lens, dim-n)
		}
	}
	wrong := func(v []int) [][]int {
		out := [][]int{{}, v[:len(v)-1], append(append([]int{}, v...), 0), append(append([]int{}, v...), 1), append(append([]int{}, v...), v...)}
		for _, n := range lens {
			if n == dim {
				n = dim + 3
			}
			w := make([]int, n)
			copy(w, v)
			out = append(out, w)
		}
		if len(v) > 1 {
			out = append(out, v[1:], []int{1})
		}
		return out
	}
	for k := 1; k < 1<<len(ci); k++ {
		for w := range wrong(make([]int, dim)) {
			for _, scoped := range []bool{false, true} {
				x = mk()
				x.scoped = scoped
				for b, i := range ci {
					if k>>b&1 == 1 {
						x.consts[i] = wrong(x.consts[i])[w]
					}
				}
				what := fmt.Sprintf("a constant of the wrong dimension in %s", x)
				a.mustReject(r, "wrong dimension", c.short, c.where, what, dim, nodes, x.context(a), x.value(a), ctxOV())
			}
		}
		// a constant that has no value at all
		x = mk()
		kv := x.value(a)
		for b, i := range ci {
			if k>>b&1 == 1 {
				kv = withField(kv.(*SV), c.ops[i].field, a.qconst("unbound", nil))
			}
		}
		a.mustReject(r, "wrong dimension", c.short, c.where, "a constant without value in "+x.String(), dim, nodes, NewSpecCtx(), kv, ctxOV())
	}
	if c.pref {
		base := mk().pref
		var last []int
		for i := dim - 1; i >= 0; i-- {
			last = append(last, i)
		}
		bads := [][]int{{-1}, {dim}, {dim + 5}, append(append([]int{}, base...), -1), append(append([]int{}, base...), dim), append([]int{-1}, base...), append([]int{dim}, base...), {0, 0}, {dim - 1, 0, dim - 1}, append(append([]int{}, base...), base...), append(last, 0)}
		if dim > 1 {
			bads = append(bads, []int{0, 1, 0}, []int{1, 1}, []int{0, 1, 1})
		}
		for _, p := range bads {
			if len(p) == 0 {
				continue
			}
			x = mk()
			x.pref = p
			a.mustReject(r, "invalid preference", c.short, c.where, "an invalid preference in "+x.String(), dim, nodes, x.context(a), x.value(a), ctxOV())
		}
	}
}

func withField(s *SV, name string, v Val) *SV {
	c := &SV{s.typ, append([]Val{}, s.f...)}
	u := under(s.typ).(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			c.f[i] = v
			return c
		}
	}
	fail("field %s not found", name)
	return nil
}

func (a *Analyzer) invalidOperator(r *Report, name string) {
	t := a.typeOf("query/logop", name)
	fn, where := a.encWhere("query/logop", name)
	var kids []string
	switch name {
	case "And", "Or":
		kids = []string{"Q1", "Q2"}
	default:
		kids = []string{"Q"}
	}
	for _, dim := range []int{1, 2} {
		for _, m := range models(dim, 4, 1) {
			for ci, child := range []func(m *Machine) (Val, Val){
				func(m *Machine) (Val, Val) { return a.mkCNF(0, nil, nil), nil },
				func(m *Machine) (Val, Val) { x := m.alloc("p", 0, 0); return a.mkCNF(x, [][]int{{x}}, nil), nil },
				func(m *Machine) (Val, Val) { return a.mkCNF(0, [][]int{{}}, nil), nil },
			} {
				val := func(missing int) Val {
					kv := map[string]Val{}
					for i, k := range kids {
						kv[k] = oracle("child", child)
						if missing>>i&1 == 1 {
							kv[k] = nil
						}
					}
					switch name {
					case "WithVar":
						kv["I"] = "x"
					case "ForAllGuarded":
						kv["I"] = a.qconst("c", nil)
					}
					return mkStruct(t, kv)
				}
				for miss := 0; miss < 1<<len(kids); miss++ {
					if miss > 0 {
						a.mustReject(r, "missing child", fn, where, fmt.Sprintf("a nil child (%d) of %s", miss, name), dim, m.nodes, NewSpecCtx(), val(miss), ctxOV())
					}
					a.mustReject(r, "missing context", fn, where, fmt.Sprintf("a nil context of %s", name), dim, m.nodes, NewSpecCtx(), val(miss), nil)
				}
				if name != "ForAllGuarded" || dim == 1 {
					continue
				}
				for _, bad := range badModels() {
					if ci == 0 {
						a.mustReject(r, "invalid model", fn, where, "a guarded quantifier over a model with "+bad.name, bad.dim, bad.nodes, NewSpecCtx(), val(0), ctxOV())
					}
				}
			}
		}
	}
	// a child that fails makes the operator fail
	for k := range kids {
		for pass := 0; pass < 2; pass++ {
			kv := map[string]Val{}
			for i, n := range kids {
				i := i
				kv[n] = oracle("child", func(m *Machine) (Val, Val) {
					if i == k {
						if pass == 1 {
							x := m.alloc("p", 0, 0)
							return a.mkCNF(x, [][]int{{x}}, nil), &EV{kind: "child"}
						}
						return a.mkCNF(0, nil, nil), &EV{kind: "child"}
					}
					return a.mkCNF(0, nil, nil), nil
				})
			}
			switch name {
			case "WithVar":
				kv["I"] = "x"
			case "ForAllGuarded":
				kv["I"] = a.qconst("c", nil)
			}
			mm := models(2, 4, 1)[12]
			a.mustReject(r, "invalid child", fn, where, "a child that cannot be encoded in "+name, 2, mm.nodes, NewSpecCtx(), mkStruct(t, kv), ctxOV())
		}
	}
}

// answerWithout reports whether a constant component's answer follows from
// the valid part of the model alone, so that it need not examine the node.
func answerWithout(c *component, bad badModel, v []int, flag bool) bool {
	if len(bad.nodes) == 0 {
		return false
	}
	ok := func(i int) bool { return i >= 0 && i < len(bad.nodes) }
	featOK := func(n Node) bool { return n.Feat >= 0 && n.Feat < bad.dim }
	switch c.pkg {
	case "isnode":
		for i := 0; ; {
			n := bad.nodes[i]
			if n.leaf() {
				return true
			}
			if !featOK(n) {
				return false
			}
			switch v[n.Feat] {
			case 0:
				return true
			case 1:
				i = n.ZChild
			default:
				i = n.OChild
			}
			if !ok(i) {
				return false
			}
		}
	case "allcomp":
		missing, wrong := false, false
		var w func(i int)
		w = func(i int) {
			if !ok(i) {
				missing = true
				return
			}
			n := bad.nodes[i]
			if n.leaf() {
				wrong = wrong || n.Value != flag
				return
			}
			if !featOK(n) {
				missing = true
				return
			}
			if v[n.Feat] != 2 {
				w(n.ZChild)
			}
			if v[n.Feat] != 1 {
				w(n.OChild)
			}
		}
		w(0)
		return wrong || !missing
	}
	return false
}
