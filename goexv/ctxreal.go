package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
)

// CtxSums are the transfer functions of the library's own context: for every
// method, its results and the new value of every piece of state as terms over
// the arguments and the old state.
type CtxSums struct {
	dyn     types.Type
	init    map[string]*T
	methods map[string]*Summary
	order   []string
}

type ctxTree struct {
	in     *Interp
	leaves []stateLeaf
}

func (c *ctxTree) walk(st *State, v *T, t types.Type, path string, sym bool) *T {
	in := c.in
	leaf := func(out *T) {
		c.leaves = append(c.leaves, stateLeaf{path: path, out: out})
	}
	if v.op == OPtr && len(v.a) == 0 {
		cell := int(v.n)
		pt := in.meta[cell].typ
		nv := c.walk(st, st.m[cell], pt, path+"*", sym)
		if sym {
			st.m[cell] = nv
			in.meta[cell].input = true
		}
		return v
	}
	if u, ok := under(t).(*types.Struct); ok {
		fs := make([]*T, u.NumFields())
		if b := bufField(t); b >= 0 {
			x := in.content(st, Field(v, b))
			if x.op == OInt || x.op == ONil {
				x = Str("")
			}
			leaf(x)
			if sym {
				z := zero(t)
				copy(fs, z.a)
				fs[b] = Sym("st:" + path)
				return Struct(t, fs...)
			}
			return v
		}
		for i := range fs {
			fs[i] = c.walk(st, Field(v, i), u.Field(i).Type(), path+"."+u.Field(i).Name(), sym)
		}
		if sym {
			return Struct(t, fs...)
		}
		return v
	}
	if isMapT(t) {
		leaf(c.box(st, in.freeze(st, v, false, token.NoPos), 0))
		if sym {
			if v.op == OMapV {
				st.m[int(v.n)] = Sym("st:" + path)
				return v
			}
			// nil at construction: the map may still be created later
			return Sym("st:" + path)
		}
		return v
	}
	leaf(c.box(st, in.freeze(st, v, false, token.NoPos), 0))
	if sym {
		return Sym("st:" + path)
	}
	return v
}

// box replaces pointers kept in containers by what they point to.
func (c *ctxTree) box(st *State, v *T, depth int) *T {
	if depth > 200 || len(v.a) == 0 && v.op != OPtr {
		return v
	}
	if v.op == OPtr {
		if p := types.NewPointer(c.in.meta[int(v.n)].typ); len(v.a) > 0 || !c.in.boxable(p) {
			return v
		}
		return c.box(st, c.in.freeze(st, st.m[int(v.n)], false, token.NoPos), depth+1)
	}
	as := make([]*T, len(v.a))
	same := true
	for i, x := range v.a {
		as[i] = c.box(st, x, depth+1)
		same = same && as[i] == x
	}
	if same {
		return v
	}
	return rebuild(v, as)
}

var ctxOps = []string{"ScopeVar", "AddVar", "ScopeConst", "AddScope", "PopScope", "SetScope", "Reset", "TopV", "UpdateTopV", "CNFVar", "CNFVarExists"}

// CtxSummaries analyses the constructor and methods of the basic context.
func (a *Analyzer) CtxSummaries() (*CtxSums, error) {
	a.mu.Lock()
	defer a.mu.Unlock()
	if a.ctxS != nil {
		return a.ctxS, nil
	}
	fn := a.prog.Func("query", "BasicQContext")
	if fn == nil {
		return nil, fmt.Errorf("query.BasicQContext not found")
	}
	fd := a.prog.Funcs[fn]
	cs := &CtxSums{init: map[string]*T{}, methods: map[string]*Summary{}}
	for _, name := range append([]string{""}, ctxOps...) {
		in := a.newInterp()
		st := &State{m: map[int]*T{}}
		var tr []*Item
		in.trace = &tr
		r := in.callDecl(fd, nil, []*T{Sym("model")}, st, token.NoPos, nil)
		if len(r) != 1 || (r[0].op != OPtr && r[0].op != OStruct) {
			return nil, fmt.Errorf("query.BasicQContext: result not resolved: %s", r[0])
		}
		v := r[0]
		var dyn types.Type
		if v.op == OPtr {
			dyn = types.NewPointer(in.meta[int(v.n)].typ)
		} else {
			dyn = v.typ
		}
		cs.dyn = dyn
		tree := &ctxTree{in: in}
		if name == "" {
			tree.walk(st, v, dyn, "ctx", false)
			for _, l := range tree.leaves {
				cs.init[l.path] = l.out
				cs.order = append(cs.order, l.path)
			}
			if len(in.undecided) > 0 {
				n := in.undecided[0]
				return nil, fmt.Errorf("query.BasicQContext: %s at %s", n.msg, a.prog.Pos(n.pos))
			}
			continue
		}
		v = tree.walk(st, v, dyn, "ctx", true)
		m, idx := in.methodOf(dyn, name, fn.Pkg())
		if m == nil {
			return nil, fmt.Errorf("context method %s not found", name)
		}
		sig := m.Type().(*types.Signature)
		s := &Summary{fn: m.Origin(), name: shortName(m.Origin()), in: in}
		if d := a.prog.Funcs[m.Origin()]; d != nil {
			s.pos = a.prog.Pos(d.Decl.Pos())
		}
		var items []*Item
		in.trace = &items
		st.pc = nil
		var args []*T
		for i := 0; i < sig.Params().Len(); i++ {
			k := fmt.Sprintf("a%d", i)
			s.params = append(s.params, k)
			args = append(args, Sym(k))
		}
		res := in.invokeOn(m.Origin(), v, dyn, idx, args, st, token.NoPos, sig.Results().Len())
		for _, x := range res {
			s.res = append(s.res, in.freeze(st, x, false, token.NoPos))
		}
		after := &ctxTree{in: in}
		after.walk(st, v, dyn, "ctx", false)
		s.state = after.leaves
		s.items = items
		s.und = in.undecided
		s.nItems = countItems(items)
		cs.methods[name] = s
		a.stats.summaries++
		a.stats.items += int64(s.nItems)
	}
	sort.Strings(cs.order)
	a.ctxS = cs
	return cs, nil
}

// RealCtx interprets context operations by the transfer functions extracted
// from the library's context.
type RealCtx struct {
	cs   *CtxSums
	vals map[string]Val
	num  map[triple]int64
	ord  []triple
	log  []string
}

func NewRealCtx(cs *CtxSums) *RealCtx {
	c := &RealCtx{cs: cs, vals: map[string]Val{}, num: map[triple]int64{}}
	env := NewEnv()
	env.sym["model"] = &OV{name: "model"}
	for p, t := range cs.init {
		c.vals[p] = env.eval(t, env.root)
	}
	return c
}

func (c *RealCtx) clone() *RealCtx {
	n := &RealCtx{cs: c.cs, vals: map[string]Val{}, num: map[triple]int64{}}
	for k, v := range c.vals {
		n.vals[k] = v
	}
	for k, v := range c.num {
		n.num[k] = v
	}
	n.log = append(n.log, c.log...)
	return n
}

func (c *RealCtx) key() string {
	s := ""
	for _, p := range c.cs.order {
		s += p + "=" + vkey(c.vals[p]) + ";"
	}
	return s
}

func (c *RealCtx) cnfvar(q string, i, v int64) int64 {
	n, ok := c.num[triple{q, i, v}]
	if !ok {
		fail("solver variable (%q,%d,%d) read before it was requested", q, i, v)
	}
	return n
}

// op performs one operation and returns its results.
func (c *RealCtx) op(m *Machine, name string, args ...Val) ([]Val, *Stop) {
	sum := c.cs.methods[name]
	syms := map[string]Val{"ctx": &OV{name: "ctx"}, "model": &OV{name: "model"}}
	for p, v := range c.vals {
		syms["st:"+p] = v
	}
	for i, v := range args {
		syms[fmt.Sprintf("a%d", i)] = v
	}
	res, state, stop := m.Call(sum, syms)
	if stop != nil {
		return nil, stop
	}
	for p, v := range state {
		c.vals[p] = v
	}
	return res, nil
}

func (c *RealCtx) event(m *Machine, name string, args []Val) map[string]Val {
	if name == "Reset" {
		c.num = map[triple]int64{}
	}
	res, stop := c.op(m, name, args...)
	if stop != nil {
		panic(stop)
	}
	if name == "CNFVar" {
		n, ok := res[0].(int64)
		if !ok {
			fail("CNFVar returned %s", vkey(res[0]))
		}
		k := triple{toStr(args[0]), args[1].(int64), args[2].(int64)}
		if _, ok := c.num[k]; !ok {
			c.ord = append(c.ord, k)
		}
		c.num[k] = n
	}
	out := map[string]Val{}
	for i, v := range res {
		out[fmt.Sprint(i)] = v
	}
	return out
}
