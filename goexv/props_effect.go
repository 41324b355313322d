package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"path"
	"sort"
	"strconv"
	"strings"
)

// libPkgs are the packages of the library proper.
func (a *Analyzer) libPkgs() []*Pkg {
	var out []*Pkg
	var ps []string
	for p := range a.prog.Pkgs {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		if strings.Contains(p, "/examples") || strings.Contains(p, "/internal/test") {
			continue
		}
		out = append(out, a.prog.Pkgs[p])
	}
	return out
}

// libFuncs are the functions with bodies declared in the library, in order.
func (a *Analyzer) libFuncs() []*FuncDecl {
	var out []*FuncDecl
	in := map[*Pkg]bool{}
	for _, p := range a.libPkgs() {
		in[p] = true
	}
	for _, fd := range a.prog.Funcs {
		if in[fd.Pkg] && fd.Decl.Body != nil {
			out = append(out, fd)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fullName(out[i].Obj) < fullName(out[j].Obj) })
	return out
}

func recvNamed(fn *types.Func) *types.Named {
	r := fn.Type().(*types.Signature).Recv()
	if r == nil {
		return nil
	}
	t := r.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// exportedRoots are the entry points of a package.
func (a *Analyzer) exportedRoots(base string) []*types.Func {
	var out []*types.Func
	for _, fd := range a.libFuncs() {
		if path.Base(fd.Pkg.Path) != base || !fd.Obj.Exported() {
			continue
		}
		if n := recvNamed(fd.Obj); n != nil && !n.Obj().Exported() {
			continue
		}
		out = append(out, fd.Obj)
	}
	return out
}

// encRoots are the Encoding methods of all packages.
func (a *Analyzer) encRoots() []*types.Func {
	var out []*types.Func
	for _, fd := range a.libFuncs() {
		if fd.Obj.Name() == "Encoding" && recvNamed(fd.Obj) != nil {
			out = append(out, fd.Obj)
		}
	}
	return out
}

// innermost names the function an item's construct is in.
func innermost(it *Item, root string) string {
	if n := len(it.stack); n > 0 {
		f := it.stack[n-1]
		if i := strings.Index(f, "@"); i >= 0 {
			f = f[:i]
		}
		return f
	}
	return root
}

func eachItem(its []*Item, f func(*Item)) {
	seen := map[*Summary]bool{}
	var each func(its []*Item)
	each = func(its []*Item) {
		for _, it := range its {
			f(it)
			each(it.sub)
			if it.mu != nil && !seen[it.mu] {
				seen[it.mu] = true
				each(it.mu.items)
			}
		}
	}
	each(its)
}

// storageOf collects the inputs whose storage the value t may share.
type origins struct {
	seen map[*T]bool
	in   *Interp
	a    *Analyzer
	deep map[string]bool
}

// sym adds an input; inside a recursive call, what it was on the first call.
func (o *origins) sym(t *T, out map[string]bool, f func(*T, map[string]bool, *origins)) {
	if x, ok := o.in.muOrig[t.k]; ok {
		f(x, out, o)
		return
	}
	out[t.k] = true
}

// recRes adds what a recursive call of a function may return the storage of.
func (o *origins) recRes(t *T, out map[string]bool) bool {
	it := o.in.recEv[t.n]
	if it == nil {
		return false
	}
	fn := o.a.byName(strings.TrimPrefix(it.name, "rec:"))
	k, err := strconv.Atoi(t.k)
	if fn == nil || err != nil {
		return false
	}
	key := it.name + t.k
	if o.deep[key] {
		return true
	}
	s := o.a.Summarise(fn)
	if k >= len(s.res) {
		return false
	}
	d := map[string]bool{key: true}
	for x := range o.deep {
		d[x] = true
	}
	m := map[string]bool{}
	storageOf(s.res[k], m, &origins{map[*T]bool{}, s.in, o.a, d})
	for x := range m {
		arg := -1
		for i, p := range append([]string{"recv"}, s.params...) {
			if x == p || strings.HasPrefix(x, p+".") {
				arg = i
			}
		}
		if arg < 0 || arg >= len(it.args) {
			out[x] = true
			continue
		}
		storageOf(it.args[arg], out, o)
		elemsOf(it.args[arg], out, o)
	}
	return true
}

func (o *origins) muRes(t *T) *T {
	mr := o.in.muEv[t.n]
	if mr == nil {
		return nil
	}
	k, err := strconv.Atoi(t.k)
	if err != nil || k >= len(mr.sum.res) {
		return nil
	}
	return mr.sum.res[k]
}

func storageOf(t *T, out map[string]bool, o *origins) {
	if o.seen[t] {
		return
	}
	o.seen[t] = true
	switch t.op {
	case OSym:
		o.sym(t, out, storageOf)
	case ORes:
		if r := o.muRes(t); r != nil {
			storageOf(r, out, o)
			return
		}
		if o.recRes(t, out) {
			return
		}
		out[fmt.Sprintf("result %s of event %d", t.k, t.n)] = true
	case OCall:
		switch t.k {
		case "reverse", "sort":
		default:
			if strings.HasPrefix(t.k, "fn:") {
				out[t.k] = true
			}
		}
	case OField, OIdx, OGet:
		elemsOf(t.a[0], out, o)
	case OSlice:
		storageOf(t.a[0], out, o)
	case OSetIdx:
		storageOf(t.a[0], out, o)
	case OIte:
		storageOf(t.a[1], out, o)
		storageOf(t.a[2], out, o)
	case OFold:
		if b := t.a[len(t.a)-1]; b.op == OFoldB {
			n := int(b.n)
			storageOf(b.a[int(t.n)], out, o)
			storageOf(b.a[n+int(t.n)], out, o)
		}
	}
}

// elemsOf collects the inputs whose storage elements of t may share.
func elemsOf(t *T, out map[string]bool, o *origins) {
	switch t.op {
	case OSym:
		o.sym(t, out, elemsOf)
	case ORes, OCall:
		storageOf(t, out, o)
	case OField, OIdx, OGet:
		elemsOf(t.a[0], out, o)
	case OSlice:
		elemsOf(t.a[0], out, o)
	case OSetIdx:
		elemsOf(t.a[0], out, o)
		storageOf(t.a[2], out, o)
	case OIte:
		elemsOf(t.a[1], out, o)
		elemsOf(t.a[2], out, o)
	case OStruct:
		for _, x := range t.a {
			storageOf(x, out, o)
		}
	case OPut:
		elemsOf(t.a[0], out, o)
		storageOf(t.a[2], out, o)
	case OFold:
		if b := t.a[len(t.a)-1]; b.op == OFoldB {
			n := int(b.n)
			elemsOf(b.a[int(t.n)], out, o)
			if !o.seen[b.a[n+int(t.n)]] {
				o.seen[b.a[n+int(t.n)]] = true
				elemsOf(b.a[n+int(t.n)], out, o)
			}
		}
	case OSeq:
		for _, it := range t.a {
			switch it.op {
			case OElem:
				storageOf(it.a[0], out, o)
			case OSplice:
				elemsOf(it.a[0], out, o)
			case OSIf, OSFor:
				for _, x := range it.a[1:] {
					elemsOf(x, out, o)
				}
			}
		}
	}
}

func (a *Analyzer) inputsOf(in *Interp, t *T) []string {
	m := map[string]bool{}
	storageOf(t, m, &origins{map[*T]bool{}, in, a, nil})
	return sortedStr(m)
}

// checkValues decides P16.
func (a *Analyzer) checkValues(r *Report) {
	r.reason = "Alias and effect analysis of every exported function and method of package cnf, every Encoding method and the exported functions of package compute, callees inlined with their arguments: each append, element store, copy, in-place sort and map store is classified by the storage it may write. Growing a slice that belongs to an input (receiver, argument, or the result of another call) without making sure it has no spare capacity, writing an element of such storage, writing storage after it has become part of a formula, growing one local slice twice into two formulas, and writing package-level variables are violations."
	var roots []*types.Func
	roots = append(roots, a.exportedRoots("cnf")...)
	roots = append(roots, a.encRoots()...)
	roots = append(roots, a.exportedRoots("compute")...)
	sites := 0
	for _, fd := range a.libFuncs() {
		ast.Inspect(fd.Decl.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "append" || id.Name == "copy" || id.Name == "delete") {
					sites++
				}
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					if _, ok := l.(*ast.IndexExpr); ok {
						sites++
					}
				}
			}
			return true
		})
	}
	r.ok("write sites", sites)
	for _, fn := range roots {
		s := a.Summarise(fn)
		m := NewMachine(a, 1, nil)
		m.used[s] = true
		r.use(m)
		skip := false
		for _, n := range s.und {
			if n.lossy {
				r.undecided(fmt.Sprintf("%s: %s at %s", s.name, n.msg, a.prog.Pos(n.pos)))
				skip = true
			}
		}
		if skip {
			continue
		}
		a.valueNotes(r, s)
		r.ok("functions with no shared writes", 1)
		// a pointer receiver must be left as it was
		if rn := recvNamed(fn); rn != nil && len(s.state) == 1 && rn.Obj().Name() == "CNF" {
			if s.state[0].out != symTree(rn, "recv") {
				r.bad("receiver unchanged", s.name, s.pos, "the receiver's fields are assigned")
			}
		}
	}
	for _, w := range a.globalWrites() {
		r.bad("package variables unchanged", w.fn, w.where, "writes package-level variable "+w.what)
	}
	a.checkReuse(r, "results in storage of their own", "cnf")
}

func (a *Analyzer) valueNotes(r *Report, s *Summary) {
	eachItem(s.items, func(it *Item) {
		if it.kind != "note" {
			return
		}
		fn := innermost(it, s.name)
		where := a.prog.Pos(it.pos)
		switch it.name {
		case "append-alias":
			in := a.inputsOf(s.in, it.args[0])
			if len(in) > 0 {
				r.bad("append to shared storage", fn, where, fmt.Sprintf("append may write into spare capacity of %s, which another formula may share (reached from %s)", strings.Join(in, ", "), s.name))
			}
		case "store-alias":
			in := []string{"an input"}
			if it.args[0].op != OInt {
				in = a.inputsOf(s.in, it.args[0])
			}
			if len(in) > 0 {
				r.bad("write to shared storage", fn, where, fmt.Sprintf("writes storage of %s (reached from %s)", strings.Join(in, ", "), s.name))
			}
		case "store-after-publish":
			r.bad("write after storing", fn, where, fmt.Sprintf("writes storage that became part of a formula at %s (reached from %s)", it.args[0].k, s.name))
		case "sibling-append":
			r.bad("two results from one slice", fn, where, fmt.Sprintf("grows a slice already grown into a formula at %s (reached from %s)", it.args[0].k, s.name))
		case "write-global":
			r.bad("package variables unchanged", fn, where, fmt.Sprintf("writes package-level variable %s (reached from %s)", it.args[0], s.name))
		}
	})
}

type globalWrite struct {
	fn, where, what string
	v               *types.Var
}

// globalReads counts, for package-level variables, the uses in function
// bodies other than the given writes.
func (a *Analyzer) globalReads(ws []globalWrite) map[*types.Var]int {
	n := map[*types.Var]int{}
	for _, fd := range a.libFuncs() {
		ast.Inspect(fd.Decl.Body, func(x ast.Node) bool {
			if id, ok := x.(*ast.Ident); ok {
				if v, ok := fd.Pkg.Info.Uses[id].(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
					n[v]++
				}
			}
			return true
		})
	}
	for _, w := range ws {
		n[w.v]--
	}
	return n
}

// globalWrites finds writes to package-level variables.
func (a *Analyzer) globalWrites() []globalWrite {
	var out []globalWrite
	for _, fd := range a.libFuncs() {
		if fd.Decl.Recv == nil && fd.Decl.Name.Name == "init" {
			continue
		}
		info := fd.Pkg.Info
		var root func(e ast.Expr) *types.Var
		root = func(e ast.Expr) *types.Var {
			switch x := e.(type) {
			case *ast.Ident:
				v, ok := info.Uses[x].(*types.Var)
				if ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
					return v
				}
			case *ast.SelectorExpr:
				if _, ok := info.Selections[x]; !ok {
					return root(x.Sel)
				}
				return root(x.X)
			case *ast.IndexExpr:
				return root(x.X)
			case *ast.StarExpr:
				return root(x.X)
			case *ast.ParenExpr:
				return root(x.X)
			case *ast.SliceExpr:
				return root(x.X)
			}
			return nil
		}
		add := func(v *types.Var, pos token.Pos) {
			if v != nil {
				out = append(out, globalWrite{shortName(fd.Obj), a.prog.Pos(pos), v.Pkg().Name() + "." + v.Name(), v})
			}
		}
		ast.Inspect(fd.Decl.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					for _, l := range x.Lhs {
						add(root(l), l.Pos())
					}
				}
			case *ast.IncDecStmt:
				add(root(x.X), x.Pos())
			case *ast.RangeStmt:
				if x.Tok == token.ASSIGN {
					if x.Key != nil {
						add(root(x.Key), x.Pos())
					}
					if x.Value != nil {
						add(root(x.Value), x.Pos())
					}
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok {
					if _, b := info.Uses[id].(*types.Builtin); b && len(x.Args) > 0 && (id.Name == "delete" || id.Name == "clear" || id.Name == "copy") {
						add(root(x.Args[0]), x.Pos())
					}
				}
				if se, ok := x.Fun.(*ast.SelectorExpr); ok {
					if sel := info.Selections[se]; sel != nil {
						if f, ok := sel.Obj().(*types.Func); ok {
							sig := f.Type().(*types.Signature)
							if sig.Recv() != nil && isPtrT(sig.Recv().Type()) && f.Pkg() != nil && mutating(f, a.prog.Module) {
								add(root(se.X), x.Pos())
							}
						}
					}
				}
			}
			return true
		})
	}
	return out
}

// mutating reports whether a pointer-receiver method may change its receiver.
func mutating(f *types.Func, module string) bool {
	p := f.Pkg().Path()
	switch p {
	case "sync":
		if n := recvNamed(f); n != nil && n.Obj().Name() == "Pool" {
			return false // see props_reuse.go
		}
		switch f.Name() {
		case "Lock", "Unlock", "RLock", "RUnlock", "Load":
			return false
		}
		return true
	case "sync/atomic":
		return f.Name() != "Load"
	case "bytes", "strings", "bufio", "container/list", "math/rand":
		return true
	}
	return strings.HasPrefix(p, module)
}

// checkPure decides P30.
func (a *Analyzer) checkPure(r *Report) {
	r.reason = "Effect analysis of every Encoding method with all callees inlined: the only effects allowed are operations of the context, encodings of sub-queries and calls of the naming functions; writes to package-level variables, to the query's own slices, to the model's nodes or to scoped constants, starting goroutines, and reading time, randomness or the environment are violations. Methods that range over a map are evaluated with the keys visited in opposite orders and must give the same formula and number the same variables."
	roots := a.encRoots()
	ordered := map[*types.Func]bool{}
	for _, fn := range roots {
		s := a.Summarise(fn)
		m := NewMachine(a, 1, nil)
		m.used[s] = true
		r.use(m)
		skip := false
		for _, n := range s.und {
			if n.lossy && !strings.Contains(n.msg, "go statement") {
				r.undecided(fmt.Sprintf("%s: %s at %s", s.name, n.msg, a.prog.Pos(n.pos)))
				skip = true
			}
		}
		n := 0
		eachItem(s.items, func(it *Item) {
			fn2 := innermost(it, s.name)
			where := a.prog.Pos(it.pos)
			switch it.kind {
			case "call":
				n++
				if strings.HasPrefix(it.name, "ctx.") || it.name == "enc" || strings.HasPrefix(it.name, "fn:") || strings.HasPrefix(it.name, "rec:") {
					return
				}
				if strings.HasPrefix(it.name, "os.") || strings.HasPrefix(it.name, "file.") || strings.HasPrefix(it.name, "exec.") || it.name == "step" || it.name == "sat" {
					r.bad("effects on the context only", fn2, where, "performs "+it.name+" while building a formula (reached from "+s.name+")")
				}
			case "note":
				if skip && it.name != "go-statement" && it.name != "write-global" {
					return
				}
				switch it.name {
				case "write-global":
					r.bad("package variables unchanged", fn2, where, fmt.Sprintf("writes package-level variable %s (reached from %s)", it.args[0], s.name))
				case "environment":
					r.bad("no outside influence", fn2, where, fmt.Sprintf("reads %s while building a formula (reached from %s)", it.args[0], s.name))
				case "go-statement":
					r.bad("no outside influence", fn2, where, "starts a goroutine while building a formula (reached from "+s.name+")")
				case "store-alias", "append-alias":
					if it.args[0].op == OInt {
						return
					}
					for _, x := range a.inputsOf(s.in, it.args[0]) {
						if strings.HasPrefix(x, "recv") || strings.HasPrefix(x, "ctx.") {
							r.bad("query and model unchanged", fn2, where, fmt.Sprintf("may write storage of %s (reached from %s)", x, s.name))
						}
						if strings.HasPrefix(x, "result 0 of event") && it.name == "store-alias" {
							r.bad("query and model unchanged", fn2, where, fmt.Sprintf("writes storage of %s (reached from %s)", x, s.name))
						}
					}
				case "map-range":
					ordered[fn] = true
				}
			}
		})
		if len(s.state) == 1 && !skip {
			if rn := recvNamed(fn); rn != nil && s.state[0].out != symTree(rn, "recv") {
				r.bad("query and model unchanged", s.name, s.pos, "the query's fields are assigned")
			}
		}
		r.ok("effects", n+1)
	}
	for _, w := range a.globalWrites() {
		r.bad("package variables unchanged", w.fn, w.where, "writes package-level variable "+w.what)
	}
	// evaluation under both key orders, and twice under the same
	vk := func(m *Machine, res Val) string { return vkey(res) + "|" + fmt.Sprint(m.ctx.(*SpecCtx).order) }
	seen := 0
	a.eachEncoding(r, func(x *inst, m *Machine, res Val) {
		m2 := NewMachine(a, x.m.dim, a.nodeVals(x.m.nodes))
		m2.ctx = x.context(a)
		m2.rev = true
		res2, err, stop := m2.Encode(x.value(a), ctxOV())
		if stop != nil {
			r.undecided(x.c.String() + ": " + stop.msg)
			return
		}
		if err != nil || vk(m, res) != vk(m2, res2) {
			r.bad("map order", x.c.short, x.c.where, "the formula depends on the order in which map entries are visited ("+x.String()+")")
		}
		r.ok("map order", 1)
	})
	_ = seen
	// declarations and quantifiers
	wt, ft, nt := a.typeOf("query/logop", "WithVar"), a.typeOf("query/logop", "ForAllGuarded"), a.typeOf("query/logop", "Not")
	for _, name := range []string{"WithVar", "ForAllGuarded"} {
		fn, where := a.encWhere("query/logop", name)
		for _, md := range append(append(models(1, 0, 0), models(2, 0, 0)[:20]...), models(4, 12, 3)...) {
			for shape := 0; shape < 3; shape++ {
				var ks [2]string
				okk := true
				for i := range ks {
					m := NewMachine(a, md.dim, a.nodeVals(md.nodes))
					m.ctx, m.rev = NewSpecCtx(), i == 1
					var q Val = oracle("body", func(m *Machine) (Val, Val) {
						v := toStr(m.ctxOp("ScopeVar", "x")["0"])
						k := m.ctxOp("ScopeConst", a.qconst("c", nil))["0"]
						p, d := m.alloc("p"+vkey(k), 0, 0), m.alloc(v, 0, 1)
						return a.mkCNF(max(p, d), [][]int{{p, -d}, {d}}, nil), nil
					})
					if shape == 1 {
						q = mkStruct(nt, map[string]Val{"Q": q})
					}
					if name == "WithVar" || shape == 2 {
						q = mkStruct(wt, map[string]Val{"I": "x", "Q": q})
					}
					if name == "ForAllGuarded" {
						q = mkStruct(ft, map[string]Val{"I": a.qconst("c", nil), "Q": q})
					}
					res, err, stop := m.Encode(q, ctxOV())
					r.use(m)
					if stop != nil || err != nil {
						okk = false
						break
					}
					ks[i] = vk(m, res)
				}
				if okk && ks[0] != ks[1] {
					r.bad("map order", fn, where, "the formula depends on the order in which map entries are visited (on "+md.name+")")
				}
				r.ok("map order", 1)
			}
		}
	}
	for _, q := range boolQueries(false)[:200] {
		var ks [2]string
		okk := true
		for i := range ks {
			c := NewSpecCtx()
			m := NewMachine(a, 2, nil)
			m.ctx, m.rev = c, i == 1
			res, err, stop := m.Encode(q.value(a, &childLog{}), ctxOV())
			if stop != nil || err != nil {
				okk = false
				break
			}
			ks[i] = vk(m, res)
		}
		if okk && ks[0] != ks[1] {
			fn, where := a.encWhere("query/logop", topOp(q))
			r.bad("map order", fn, where, "the formula depends on the order in which map entries are visited ("+q.String()+")")
		}
		r.ok("map order", 1)
	}
}
