package main

import (
	"fmt"
	"go/types"
	"path"
	"sort"
	"strings"
)

// opnd describes one operand field of a component.
type opnd struct {
	field string
	isVar bool
}

// component is a query type of the library that encodes to a formula.
type component struct {
	pkg    string // last path element
	name   string
	typ    types.Type
	ops    []opnd
	gens   []string
	pref   bool
	flag   string
	tree   bool
	encode *types.Func
	where  string
	short  string
}

func (c *component) String() string { return c.pkg + "." + c.name }

// components finds every exported struct type with an Encoding method.
func (a *Analyzer) components(pkgs ...string) []*component {
	var out []*component
	var paths []string
	for p := range a.prog.Pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		base := path.Base(p)
		want := false
		for _, w := range pkgs {
			want = want || w == base
		}
		if !want {
			continue
		}
		sc := a.prog.Pkgs[p].Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || !tn.Exported() {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			fn := a.methodFn(tn.Type(), "Encoding")
			if fn == nil || a.prog.Funcs[fn] == nil {
				continue
			}
			c := &component{pkg: base, name: n, typ: tn.Type(), encode: fn,
				where: a.prog.Pos(a.prog.Funcs[fn].Decl.Pos()), short: shortName(fn)}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				switch {
				case isNamed(f.Type(), "QVar"):
					c.ops = append(c.ops, opnd{f.Name(), true})
				case isNamed(f.Type(), "QConst"):
					c.ops = append(c.ops, opnd{f.Name(), false})
				case f.Name() == "Preference":
					c.pref = true
				case f.Name() == "LeafValue":
					c.flag = f.Name()
				default:
					if _, ok := f.Type().Underlying().(*types.Signature); ok {
						c.gens = append(c.gens, f.Name())
					}
				}
			}
			c.tree = base == "isnode" || base == "allcomp" || base == "dfs"
			out = append(out, c)
		}
	}
	return out
}

func isNamed(t types.Type, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name
}

// inst is one instance of a component.
type inst struct {
	c      *component
	m      *model
	vars   []string // operand variable names ("" for constants)
	consts [][]int  // operand constant values (nil for variables)
	flag   bool
	pref   []int
	scoped bool
	gen    map[string]Val // override naming functions
	rev    bool           // visit map entries in the opposite order
	vecs   [][]int        // values of the variables, if not all of them
}

func (x *inst) String() string {
	var ss []string
	for i, o := range x.c.ops {
		if o.isVar {
			ss = append(ss, o.field+"="+x.vars[i])
		} else {
			ss = append(ss, o.field+"="+vecStr(x.consts[i]))
		}
	}
	if x.c.pref && len(x.pref) > 12 {
		ss = append(ss, fmt.Sprintf("preference=%v...", x.pref[:10]))
	} else if x.c.pref {
		ss = append(ss, fmt.Sprintf("preference=%v", x.pref))
	}
	if x.c.flag != "" {
		ss = append(ss, fmt.Sprintf("%s=%v", x.c.flag, x.flag))
	}
	if x.c.tree {
		ss = append(ss, x.m.name)
	} else {
		ss = append(ss, fmt.Sprintf("dim=%d", x.m.dim))
	}
	if x.scoped {
		ss = append(ss, "scoped")
	}
	if x.rev {
		ss = append(ss, "map entries in opposite order")
	}
	return x.c.String() + "{" + strings.Join(ss, " ") + "}"
}

// value builds the component's struct value.
func (x *inst) value(a *Analyzer) Val {
	kv := map[string]Val{}
	for i, o := range x.c.ops {
		if o.isVar {
			kv[o.field] = x.vars[i]
		} else if x.scoped {
			kv[o.field] = a.qconst(fmt.Sprintf("c%d", i), nil)
		} else {
			kv[o.field] = a.qconst("", x.consts[i])
		}
	}
	for _, g := range x.c.gens {
		if v, ok := x.gen[g]; ok {
			kv[g] = v
		} else {
			kv[g] = &FV{name: g}
		}
	}
	if x.c.pref {
		var p []Val
		for _, i := range x.pref {
			p = append(p, int64(i))
		}
		if p == nil {
			p = []Val{}
		}
		kv["Preference"] = p
	}
	if x.c.flag != "" {
		kv[x.c.flag] = x.flag
	}
	return mkStruct(x.c.typ, kv)
}

// context prepares the context an instance is encoded in.
func (x *inst) context(a *Analyzer) *SpecCtx {
	ctx := NewSpecCtx()
	if x.scoped {
		ctx.scopes = append(ctx.scopes, scp{tgt: "outer", idx: 7, val: intVals(make([]int, x.m.dim))})
		for _, v := range x.vars {
			if v != "" {
				ctx.addVar(v)
			}
		}
		for i := range x.c.ops {
			if x.consts[i] != nil {
				ctx.scopes = append(ctx.scopes, scp{tgt: fmt.Sprintf("c%d", i), idx: int64(i), val: intVals(x.consts[i])})
			}
		}
	}
	return ctx
}

func intVals(v []int) Val {
	xs := make([]Val, len(v))
	for i, x := range v {
		xs[i] = int64(x)
	}
	return xs
}

// encodeInst evaluates the component's summary on an instance.
func (a *Analyzer) encodeInst(x *inst, ctx *SpecCtx) (s, c [][]int, tv int, err Val, stop *Stop, m *Machine) {
	m = NewMachine(a, x.m.dim, a.nodeVals(x.m.nodes))
	m.ctx, m.rev = ctx, x.rev
	res, err, stop := m.Encode(x.value(a), &OV{name: "ctx"})
	if stop != nil || err != nil {
		return nil, nil, 0, err, stop, m
	}
	tv, s, c = a.cnfParts(res)
	return s, c, tv, nil, nil, m
}

// distinctVars are the names of the operand variables.
func distinctVars(vs []string) []string {
	var out []string
	seen := map[string]bool{}
	for _, v := range vs {
		if v != "" && !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	return out
}

// sigma is the literal assignment giving variable name the value v.
func sigma(ctx *SpecCtx, name string, v []int, out []int) []int {
	for i := range v {
		for f := 0; f < 3; f++ {
			if n, ok := ctx.num[triple{name, int64(i), int64(f)}]; ok {
				if f == v[i] {
					out = append(out, int(n))
				} else {
					out = append(out, -int(n))
				}
			}
		}
	}
	return out
}

// pairKey spreads instances evenly.
func pairKey(x *inst) int {
	h := 0
	for _, b := range []byte(x.String()) {
		h = (h*31 + int(b)) & 0xffffff
	}
	return h
}

// forSigmas enumerates assignments of the variables.
func forSigmas(names []string, vecs [][]int, f func(map[string][]int) bool) {
	m := map[string][]int{}
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(names) {
			return f(m)
		}
		for _, v := range vecs {
			m[names[i]] = v
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	rec(0)
}

// decideFormula checks that the formula (s,c) denotes want for every
// valuation of the variables.
func decideFormula(s, c [][]int, ctx *SpecCtx, names []string, vecs [][]int, want func(map[string][]int) bool) (n int, bad string) {
	top := int(ctx.topv)
	for _, cl := range s {
		for _, l := range cl {
			top = max(top, l, -l)
		}
	}
	base := newSatN(top, c)
	forSigmas(names, vecs, func(val map[string][]int) bool {
		n++
		var as []int
		for _, v := range names {
			as = sigma(ctx, ctx.scopeVar(v), val[v], as)
		}
		show := func(what string) string {
			var ss []string
			for _, v := range names {
				ss = append(ss, v+"="+vecStr(val[v]))
			}
			return what + " for " + strings.Join(ss, " ")
		}
		pos, neg, cons := formulaTruth(base, s, as)
		if !cons {
			bad = show("the auxiliary clauses rule out the valuation")
			return false
		}
		w := want(val)
		switch {
		case w && !pos:
			bad = show("the formula is false but should be true")
		case !w && pos:
			bad = show("the formula is true but should be false")
		case w && neg:
			bad = show("the negated formula is true but should be false")
		case !w && !neg:
			bad = show("the negated formula is false but should be true")
		}
		return bad == ""
	})
	return n, bad
}

// formulaTruth reports whether s, its negation and the bare consistency
// clauses are satisfiable together with the assumptions.
func formulaTruth(base *sat, s [][]int, as []int) (pos, neg, cons bool) {
	if base.bad {
		return false, false, false
	}
	base.budget = 2000000
	mark := len(base.trail)
	defer base.undo(mark)
	if !base.assign(base.units...) || !base.assign(as...) {
		return false, false, false
	}
	m2 := len(base.trail)
	cons = base.search()
	base.undo(m2)
	if !cons {
		return
	}
	// negation: some clause false
	for _, cl := range s {
		ls := make([]int, len(cl))
		for i, l := range cl {
			ls[i] = -l
		}
		if consistentLits(ls) && base.assign(ls...) && base.search() {
			neg = true
		}
		base.undo(m2)
		if neg {
			break
		}
	}
	// the formula itself
	undecided := false
	for _, cl := range s {
		ok := false
		for _, l := range cl {
			if base.lit(l) == 1 {
				ok = true
			}
		}
		if !ok {
			undecided = true
		}
	}
	if !undecided {
		pos = true
		return
	}
	full := base.full
	if full == nil || len(s) != len(base.fullS) || &s[0] != &base.fullS[0] {
		full = newSatN(base.n, base.cls, s)
		base.full, base.fullS = full, s
	}
	full.budget = 2000000
	pos = full.solve(append(append([]int{}, base.units...), base.trail[mark:]...)...)
	return
}

func consistentLits(ls []int) bool {
	seen := map[int]bool{}
	for _, l := range ls {
		if seen[-l] {
			return false
		}
		seen[l] = true
	}
	return true
}

// instances enumerates the family of one component for the tier.
func instances(c *component, thorough bool, emit func(*inst)) {
	nv, nc := 0, 0
	for _, o := range c.ops {
		if o.isVar {
			nv++
		} else {
			nc++
		}
	}
	maxDim := 3
	if nv+nc <= 2 {
		maxDim = 4
	}
	if nv+nc == 1 {
		maxDim = 5
	}
	if thorough && nv+nc >= 2 && !c.tree {
		maxDim++
	}
	if thorough && nv+nc == 1 && !c.tree {
		maxDim = 7
	}
	names := []string{"x", "y", "z"}
	var aliasings [][]string // variable names per operand
	var rec func(i int, cur []string)
	rec = func(i int, cur []string) {
		if i == len(c.ops) {
			aliasings = append(aliasings, append([]string{}, cur...))
			return
		}
		if !c.ops[i].isVar {
			rec(i+1, append(cur, ""))
			return
		}
		used := distinctVars(cur)
		for _, u := range used {
			rec(i+1, append(cur, u))
		}
		rec(i+1, append(cur, names[len(used)]))
	}
	rec(0, nil)
	top := maxDim
	if !c.tree {
		top = 6
		if thorough {
			top = 8
		}
	}
	for dim := 1; dim <= top; dim++ {
		var ms []*model
		if c.tree {
			n := 24
			switch {
			case dim == 4:
				n = 10
			case dim >= 5:
				n = 5
			}
			if thorough {
				n *= 12
			}
			ms = models(dim, n, int64(17*dim))
		} else {
			ms = []*model{{dim: dim, name: fmt.Sprintf("dim %d", dim)}}
		}
		all := vectors(dim)
		for _, m := range ms {
			// constants
			lim := len(all)
			switch {
			case nc == 3 && dim >= 3:
				lim = 9
				if thorough {
					lim = 20
				}
			case nc == 2 && dim >= 4:
				lim = 24
			case nc == 2 && nv == 1 && dim == 3:
				lim = 14
				if thorough {
					lim = 27
				}
			case nc >= 1 && dim >= 4:
				lim = 30
				if thorough {
					lim = 120
				}
			case nc == 1 && nv == 2 && dim >= 3:
				lim = 8
				if thorough {
					lim = 27
				}
			}
			if dim > maxDim {
				lim = 6
				if thorough {
					lim = 10
				}
			}
			cv := pickVecs(all, lim, int64(dim))
			if dim > maxDim {
				cv = spreadVecs(dim, lim, int64(dim))
			}
			if nc >= 2 && dim >= 3 && c.pkg == "leh" {
				// mostly full instances
				var full [][]int
				for _, v := range all {
					if isFullV(v) {
						full = append(full, v)
					}
				}
				cv = append(pickVecs(full, lim-2, int64(dim)), cv[0], cv[len(cv)/2])
			}
			var prefs [][]int = [][]int{nil}
			if c.pref {
				prefs = perms(dim)
				switch {
				case dim > maxDim:
					prefs = pickVecs(prefs, 4, 5)
				case dim == 4 && !thorough:
					prefs = pickVecs(prefs, 10, 5)
				}
			}
			flags := []bool{false}
			if c.flag != "" {
				flags = []bool{false, true}
			}
			var recC func(i int, cur [][]int, al []string)
			recC = func(i int, cur [][]int, al []string) {
				if i == len(c.ops) {
					for pi, p := range prefs {
						for _, fl := range flags {
							x := &inst{c: c, m: m, vars: al, consts: append([][]int{}, cur...), flag: fl, pref: p}
							emit(x)
							if dim <= 2 && (dim == 1 || pi%2 == 0 || !c.pref) {
								y := *x
								y.scoped = true
								emit(&y)
							}
						}
					}
					return
				}
				if c.ops[i].isVar {
					recC(i+1, append(cur, nil), al)
					return
				}
				for _, v := range cv {
					recC(i+1, append(cur, v), al)
				}
			}
			for _, al := range aliasings {
				recC(0, nil, al)
			}
		}
	}
}

var encProps = map[string]string{"P01": "subsumption", "P02": "lel", "P03": "isnode", "P04": "full", "P05": "cons", "P06": "allcomp", "P07": "dfs", "P08": "hepr", "P09": "leh"}

func (a *Analyzer) checkEncoding(r *Report) {
	pkg := encProps[r.prop]
	spec := specs[pkg]
	r.reason = "Every Encoding method of package " + pkg + " is summarised from its source into a clause schema (guarded comprehensions over loop indices, inlining all callees). The schema is instantiated for every member of a finite family of operands, dimensions and decision trees, and the clause set is decided against the definition of the predicate for every valuation of the operand variables: satisfiable with the semantic clauses iff true, with a falsified semantic clause iff false, and consistency clauses never excluding a valuation."
	comps := a.components(pkg)
	var jobs []func()
	limit := 130
	if r.thorough() {
		limit = 260
	}
	wide := append([]int{12, 20}, around(a.sizes(limit, pkg, "query", "cnf"))...)
	for _, n := range a.narrow(260, pkg, "query", "cnf") {
		wide = append(wide, n, n+1)
	}
	for _, c := range comps {
		c := c
		var batch []*inst
		flush := func() {
			b := batch
			batch = nil
			if len(b) == 0 {
				return
			}
			jobs = append(jobs, func() {
				for _, x := range b {
					a.decideInst(r, x, spec)
					if nv := len(distinctVars(x.vars)); x.scoped && nv > 0 && x.m.dim*nv <= 4 && (x.m.dim*nv < 3 || pairKey(x)%3 == 0 || r.thorough()) {
						a.decideTwice(r, x, spec)
					}
				}
			})
		}
		both := a.rangesMap(c.encode)
		size := 32
		take := func(x *inst) {
			batch = append(batch, x)
			if both {
				y := *x
				y.rev = true
				batch = append(batch, &y)
			}
			if len(batch) >= size {
				flush()
			}
		}
		instances(c, r.thorough(), take)
		flush()
		size = 2
		wideInstances(c, wide, r.thorough(), take)
		flush()
	}
	// summarise before the workers start
	for _, c := range comps {
		a.Summarise(c.encode)
	}
	r.parallel(jobs)
	r.mu.Lock()
	for _, c := range comps {
		for _, u := range a.Summarise(c.encode).und {
			r.notes = append(r.notes, fmt.Sprintf("%s: %s at %s", c, u.msg, a.prog.Pos(u.pos)))
		}
	}
	r.mu.Unlock()
}

// decideTwice encodes an instance in two iterations of an enclosing scope in
// which its variables were declared and decides the first formula while the
// second one's auxiliary clauses are present too.
func (a *Analyzer) decideTwice(r *Report, x *inst, spec func(specIn) bool) {
	r.guard(x.c.String(), func() {
		ctx := x.context(a)
		in1 := specIn{m: x.m, flag: x.flag, pref: x.pref}
		s, c, _, err, stop, m := a.encodeInst(x, ctx)
		r.use(m)
		if stop != nil || err != nil {
			return // reported elsewhere
		}
		names := distinctVars(x.vars)
		var first, second []string
		for _, v := range names {
			first = append(first, ctx.scopeVar(v))
		}
		y := *x
		y.consts = nil
		for i, v := range x.consts {
			w := append([]int{}, v...)
			for j := range w {
				w[j] = []int{1, 2, 1}[v[j]]
			}
			if v == nil {
				w = nil
			}
			y.consts = append(y.consts, w)
			if v != nil {
				for k := range ctx.scopes {
					if ctx.scopes[k].tgt == fmt.Sprintf("c%d", i) {
						ctx.scopes[k].idx += 3
						ctx.scopes[k].val = intVals(w)
					}
				}
			}
		}
		ctx.scopes[0].idx++
		_, c2, _, err, stop, m := a.encodeInst(&y, ctx)
		r.use(m)
		if stop != nil || err != nil {
			return
		}
		for _, v := range names {
			second = append(second, ctx.scopeVar(v))
		}
		top := int(ctx.topv)
		for _, l := range s {
			top = max(top, maxAbs([][]int{l}))
		}
		base := newSatN(top, append(append([][]int{}, c...), c2...))
		vecs := vectors(x.m.dim)
		n := 0
		bad := ""
		forSigmas(append(append([]string{}, first...), second...), vecs, func(val map[string][]int) bool {
			n++
			var as []int
			in := in1
			in.v = nil
			for _, v := range append(append([]string{}, first...), second...) {
				as = sigma(ctx, v, val[v], as)
			}
			at := map[string][]int{}
			for i, v := range names {
				at[v] = val[first[i]]
			}
			for i := range x.c.ops {
				if x.c.ops[i].isVar {
					in.v = append(in.v, at[x.vars[i]])
				} else {
					in.v = append(in.v, x.consts[i])
				}
			}
			pos, neg, cons := formulaTruth(base, s, as)
			w := spec(in)
			if cons && pos == w && neg == !w {
				return true
			}
			var ss []string
			for i, v := range names {
				ss = append(ss, fmt.Sprintf("%s=%s here and %s in the other iteration", v, vecStr(val[first[i]]), vecStr(val[second[i]])))
			}
			bad = "with the clauses of another iteration the formula is wrong for " + strings.Join(ss, ", ")
			return false
		})
		r.ok("denotation beside another iteration "+x.c.String(), n)
		if bad != "" {
			r.bad("denotation beside another iteration", x.c.short, x.c.where, bad+" in "+x.String())
		}
	})
}

// rangesMap tells whether a function may range over a map.
func (a *Analyzer) rangesMap(fn *types.Func) bool {
	found := false
	eachItem(a.Summarise(fn).items, func(it *Item) {
		found = found || it.kind == "note" && it.name == "map-range"
	})
	return found
}

func (a *Analyzer) decideInst(r *Report, x *inst, spec func(specIn) bool) {
	r.guard(x.c.String(), func() {
		ctx := x.context(a)
		s, c, _, err, stop, m := a.encodeInst(x, ctx)
		r.use(m)
		if stop != nil {
			r.stop("denotation", x.c.String(), stop, x.String())
			return
		}
		if err != nil {
			r.bad("denotation:error", x.c.short, x.c.where, fmt.Sprintf("encoding a valid query fails with %s (%s)", vkey(err), x))
			return
		}
		names := distinctVars(x.vars)
		vecs := x.vecs
		if vecs == nil {
			vecs = operandVals(x.m.dim, len(names), r.thorough())
		}
		n, bad := decideFormula(s, c, ctx, names, vecs, func(val map[string][]int) bool {
			in := specIn{m: x.m, flag: x.flag, pref: x.pref}
			for i := range x.c.ops {
				if x.c.ops[i].isVar {
					in.v = append(in.v, val[x.vars[i]])
				} else {
					in.v = append(in.v, x.consts[i])
				}
			}
			return spec(in)
		})
		r.ok("denotation "+x.c.String(), n)
		if bad != "" {
			r.bad("denotation", x.c.short, x.c.where, bad+" in "+x.String())
		}
	})
}
