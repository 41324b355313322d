package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

func tuple1(r []*T) *T {
	if len(r) == 1 {
		return r[0]
	}
	return Tuple(r...)
}

func (in *Interp) resultCount(f *Frame, call *ast.CallExpr) int {
	t := in.typeOf(f, call)
	if t == nil {
		return 0
	}
	if tup, ok := t.(*types.Tuple); ok {
		return tup.Len()
	}
	return 1
}

func (in *Interp) call(f *Frame, call *ast.CallExpr, st *State) []*T {
	return in.prepareCall(f, call, st)(st)
}

// prepareCall evaluates callee and arguments and returns the invocation.
func (in *Interp) prepareCall(f *Frame, call *ast.CallExpr, st *State) func(*State) []*T {
	info := f.pkg.Info
	fun := ast.Unparen(call.Fun)
	val := func(t ...*T) func(*State) []*T { return func(*State) []*T { return t } }
	if tv, ok := info.Types[fun]; ok && tv.IsType() {
		v := in.eval(f, call.Args[0], st)
		return val(in.convert(v, in.typeOf(f, call.Args[0]), in.inst(f, tv.Type), st, call.Pos()))
	}
	// strip explicit instantiation
	switch ix := fun.(type) {
	case *ast.IndexExpr:
		if _, ok := in.typeOf(f, ix.X).(*types.Signature); ok {
			if id := calleeIdent(ix.X); id != nil {
				if _, isf := info.Uses[id].(*types.Func); isf {
					fun = ix.X
				}
			}
		}
	case *ast.IndexListExpr:
		fun = ix.X
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := info.Uses[id].(*types.Builtin); ok {
			return in.builtin(f, b.Name(), call, st)
		}
	}
	var fn *types.Func
	var recv *T
	var sel *types.Selection
	switch x := fun.(type) {
	case *ast.Ident:
		fn, _ = info.Uses[x].(*types.Func)
	case *ast.SelectorExpr:
		if s, ok := info.Selections[x]; ok {
			if s.Kind() == types.MethodVal {
				fn = s.Obj().(*types.Func)
				sel = s
				recv = in.receiver(f, x, s, st)
			}
		} else {
			fn, _ = info.Uses[x.Sel].(*types.Func)
		}
	}
	if fn != nil {
		sig := fn.Type().(*types.Signature)
		args := in.args(f, call, sig, st)
		if fd := in.prog.Funcs[fn.Origin()]; fd != nil {
			for i, o := range paramObjs(fd) {
				if i < len(args) && i < len(call.Args) && len(args) == len(call.Args) && !(sig.Variadic() && i == sig.Params().Len()-1) {
					args[i] = in.bindRef(f, o, call.Args[i], args[i], st)
				}
			}
			if rl := fd.Decl.Recv; rl != nil && recv != nil && len(rl.List) > 0 && len(rl.List[0].Names) > 0 && sel != nil && len(sel.Index()) == 1 {
				if sx, ok := fun.(*ast.SelectorExpr); ok && (isPtrT(in.typeOf(f, sx.X)) == isPtrT(fd.Pkg.Info.Defs[rl.List[0].Names[0]].Type())) {
					recv = in.bindRef(f, fd.Pkg.Info.Defs[rl.List[0].Names[0]], sx.X, recv, st)
				}
			}
		}
		var inst map[*types.TypeParam]types.Type
		if id := calleeIdent(fun); id != nil {
			if ins, ok := info.Instances[id]; ok && ins.TypeArgs != nil {
				inst = map[*types.TypeParam]types.Type{}
				org := fn.Origin().Type().(*types.Signature)
				for i := 0; i < org.TypeParams().Len() && i < ins.TypeArgs.Len(); i++ {
					inst[org.TypeParams().At(i)] = in.inst(f, ins.TypeArgs.At(i))
				}
			}
		}
		_ = sel
		n := in.resultCount(f, call)
		return func(s *State) []*T {
			return in.invoke(fn.Origin(), recv, args, s, call.Pos(), n, in.typeOf(f, call), inst)
		}
	}
	fv := in.eval(f, fun, st)
	sig, _ := under(in.typeOf(f, fun)).(*types.Signature)
	if sig == nil {
		in.note(call.Pos(), "call of non-function")
		return val(Undef("call"))
	}
	args := in.args(f, call, sig, st)
	name := "func"
	switch x := fun.(type) {
	case *ast.SelectorExpr:
		name = x.Sel.Name
	case *ast.Ident:
		name = x.Name
	}
	return func(s *State) []*T { return in.callValue(fv, name, sig, args, s, call.Pos()) }
}

func calleeIdent(e ast.Expr) *ast.Ident {
	switch x := e.(type) {
	case *ast.Ident:
		return x
	case *ast.SelectorExpr:
		return x.Sel
	}
	return nil
}

func (in *Interp) args(f *Frame, call *ast.CallExpr, sig *types.Signature, st *State) []*T {
	var vals []*T
	if len(call.Args) == 1 {
		if tup, ok := in.typeOf(f, call.Args[0]).(*types.Tuple); ok {
			v := in.eval(f, call.Args[0], st)
			if v.op == OTuple {
				vals = v.a
			}
			_ = tup
		}
	}
	if vals == nil {
		for _, a := range call.Args {
			vals = append(vals, in.eval(f, a, st))
		}
	}
	if sig.Variadic() {
		n := sig.Params().Len() - 1
		if call.Ellipsis.IsValid() {
			return vals
		}
		seq := Seq()
		for _, v := range vals[min(n, len(vals)):] {
			seq = Seq(Splice(seq), Elem(in.freeze(st, v, true, call.Pos())))
		}
		pt := sig.Params().At(n).Type()
		var sv *T
		if len(vals) <= n {
			sv = Nil()
		} else {
			sv = in.newSlice(st, pt, seq, true, call.Pos())
		}
		vals = append(append([]*T{}, vals[:min(n, len(vals))]...), sv)
	}
	return vals
}

// receiver evaluates the receiver for a method selection: a pointer term for
// pointer-receiver methods, a value otherwise.
func (in *Interp) receiver(f *Frame, x *ast.SelectorExpr, sel *types.Selection, st *State) *T {
	fn := sel.Obj().(*types.Func)
	sig := fn.Type().(*types.Signature)
	idx := sel.Index()
	embed := idx[:len(idx)-1]
	xt := in.typeOf(f, x.X)
	wantPtr := sig.Recv() != nil && isPtrT(sig.Recv().Type())
	if len(embed) == 0 {
		isP := isPtrT(xt)
		switch {
		case isIfaceT(xt):
			return in.eval(f, x.X, st)
		case wantPtr && isP:
			return in.eval(f, x.X, st)
		case wantPtr:
			return in.addr(in.resolveOrTemp(f, x.X, st))
		case isP:
			p := in.eval(f, x.X, st)
			in.check(st, "nil dereference", Not(Eq(p, Nil())), x.Pos())
			if lv := in.boxedLV(f, x.X, xt, p, st); lv != nil {
				return in.load(st, lv)
			}
			return in.load(st, in.ptrLV(st, p, x.Pos()))
		default:
			return in.eval(f, x.X, st)
		}
	}
	if fn.Pkg() != nil && in.prog.Pkgs[fn.Pkg().Path()] == nil && isPtrT(xt) {
		// promoted method of a library type: keep the outer value
		v := in.eval(f, x.X, st)
		in.check(st, "nil dereference", Not(Eq(v, Nil())), x.Pos())
		return v
	}
	lv := in.fieldPath(f, x.X, xt, embed, st, x.Pos())
	// type of the embedded field
	t := xt
	for _, i := range embed {
		if p, ok := under(t).(*types.Pointer); ok {
			t = p.Elem()
		}
		t = under(t).(*types.Struct).Field(i).Type()
	}
	if wantPtr && !isPtrT(t) && !isIfaceT(t) {
		return in.addr(lv)
	}
	v := in.load(st, lv)
	if !wantPtr && isPtrT(t) {
		return in.load(st, in.ptrLV(st, v, x.Pos()))
	}
	return v
}

func fullName(fn *types.Func) string {
	sig := fn.Type().(*types.Signature)
	if sig.Recv() != nil {
		t := sig.Recv().Type()
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
			star = "*"
		}
		if n, ok := t.(*types.Named); ok {
			pk := ""
			if n.Obj().Pkg() != nil {
				pk = n.Obj().Pkg().Path() + "."
			}
			return "(" + star + pk + n.Obj().Name() + ")." + fn.Name()
		}
		return "(iface)." + fn.Name()
	}
	if fn.Pkg() != nil {
		return fn.Pkg().Path() + "." + fn.Name()
	}
	return fn.Name()
}

// methodKey names the definition of "(*pkg.Type).Method" in the prelude.
func methodKey(name string) string {
	if !strings.HasPrefix(name, "(*") {
		return ""
	}
	name = strings.TrimPrefix(name, "(*")
	return strings.Replace(name, ").", "_", 1)
}

// isPrelude tells whether a pointer refers to a value of a prelude type.
func (in *Interp) isPrelude(p *T) bool {
	t, ok := in.cellOf(p)
	if !ok {
		return false
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == in.prog.preludePkg.Types
}

// invoke calls a resolved function or method.
func (in *Interp) invoke(fn *types.Func, recv *T, args []*T, st *State, pos token.Pos, n int, rt types.Type, inst map[*types.TypeParam]types.Type) []*T {
	sig := fn.Type().(*types.Signature)
	name := fullName(fn)
	if o, ok := in.overrides[name]; ok {
		return o(in, st, recv, args, pos)
	}
	if sig.Recv() != nil && isIfaceT(sig.Recv().Type()) {
		return in.invokeIface(fn, recv, args, st, pos, n, sig)
	}
	if fd, ok := in.prog.Funcs[fn]; ok && fd.Decl.Body != nil {
		if !in.inlineCNF {
			if r, ok := in.cnfModel(fn, recv, args, st, pos); ok {
				return r
			}
		}
		return in.callDecl(fd, recv, args, st, pos, inst)
	}
	if fn.Pkg() == in.prog.preludePkg.Types {
		return in.callDecl(in.prog.prelude[strings.Replace(fn.Name(), "_", ".", 1)], recv, args, st, pos, inst)
	}
	if fd := in.prog.prelude[methodKey(name)]; fd != nil && sig.Recv() != nil && in.isPrelude(recv) {
		return in.callDecl(fd, nil, append([]*T{recv}, args...), st, pos, nil)
	}
	if fd := in.prog.prelude[name]; fd != nil && sig.Recv() == nil {
		own := fd.Obj.Type().(*types.Signature).TypeParams()
		var m map[*types.TypeParam]types.Type
		for i := 0; i < own.Len() && i < sig.TypeParams().Len(); i++ {
			if m == nil {
				m = map[*types.TypeParam]types.Type{}
			}
			m[own.At(i)] = inst[sig.TypeParams().At(i)]
		}
		return in.callDecl(fd, recv, args, st, pos, m)
	}
	return in.external(fn, name, recv, args, st, pos, sig)
}

func (in *Interp) callValue(fv *T, name string, sig *types.Signature, args []*T, st *State, pos token.Pos) []*T {
	switch fv.op {
	case OFunc:
		v := in.funcs[fv.n]
		if v.hook != nil {
			return v.hook(args, st)
		}
		if v.lit != nil {
			return in.callLit(v, args, st, pos, v.frame.pkg)
		}
		return in.invoke(v.fn, v.recv, args, st, pos, sig.Results().Len(), sig.Results(), nil)
	case OIte:
		a, b := st.clone(), st.clone()
		a.assume(fv.a[0])
		b.assume(Not(fv.a[0]))
		ra := in.callValue(fv.a[1], name, sig, args, a, pos)
		rb := in.callValue(fv.a[2], name, sig, args, b, pos)
		pc := st.pc
		m := in.merge2(a, b)
		out := make([]*T, len(ra))
		for i := range ra {
			out[i] = in.mergeVal(fv.a[0], ra[i], rb[i], a, b, m, sig.Results().At(i).Type())
		}
		*st = *m
		st.pc = pc
		return out
	}
	in.check(st, "call of nil function "+name, Not(Eq(fv, Nil())), pos)
	fz := make([]*T, len(args)+1)
	fz[0] = fv
	for i, a := range args {
		fz[i+1] = in.freeze(st, a, true, pos)
	}
	it := in.emit(st, "call", "fn:"+name, pos, fz...)
	_ = it
	out := make([]*T, sig.Results().Len())
	for i := range out {
		k := "fn:" + name
		if len(out) > 1 {
			k += fmt.Sprintf("#%d", i)
		}
		out[i] = Call(k, fz...)
	}
	return out
}

func (in *Interp) callLit(v *FuncVal, args []*T, st *State, pos token.Pos, pkg *Pkg) []*T {
	sig := pkg.Info.TypeOf(v.lit).(*types.Signature)
	if in.litActive == nil {
		in.litActive = map[*ast.FuncLit]int{}
	}
	in.litActive[v.lit]++
	defer func() { in.litActive[v.lit]-- }()
	run := func(args []*T, st *State) []*T {
		fr := &Frame{name: "func literal", pkg: pkg, env: map[types.Object]int{}, parent: v.frame, sig: sig}
		return in.runBody(fr, v.lit.Type, nil, nil, v.lit.Body, sig, nil, args, st, pos)
	}
	if in.litActive[v.lit] > 1 {
		var objs []types.Object
		for _, fl := range v.lit.Type.Params.List {
			for _, n := range fl.Names {
				objs = append(objs, pkg.Info.Defs[n])
			}
			if len(fl.Names) == 0 {
				objs = append(objs, nil)
			}
		}
		self := in.funcTerm(v)
		return in.callMu("lit "+self.String(), "func literal", []*T{self}, args, objs, sig.Results().Len(), st, pos, run)
	}
	return run(args, st)
}

func (in *Interp) callDecl(fd *FuncDecl, recv *T, args []*T, st *State, pos token.Pos, inst map[*types.TypeParam]types.Type) []*T {
	sig := fd.Obj.Type().(*types.Signature)
	in.funcsSeen[fullName(fd.Obj)] = true
	run := func(recv *T, args []*T, st *State) []*T {
		in.active[fd.Obj]++
		in.stack = append(in.stack, shortName(fd.Obj)+"@"+in.prog.Pos(pos))
		fr := &Frame{name: fullName(fd.Obj), pkg: fd.Pkg, env: map[types.Object]int{}, sig: sig, tparams: inst}
		r := in.runBody(fr, fd.Decl.Type, fd.Decl.Recv, recv, fd.Decl.Body, sig, inst, args, st, pos)
		in.stack = in.stack[:len(in.stack)-1]
		in.active[fd.Obj]--
		return r
	}
	if in.active[fd.Obj] > 0 && len(in.stack) <= in.maxDepth {
		objs := append([]types.Object{nil}, paramObjs(fd)...)
		if rl := fd.Decl.Recv; rl != nil && len(rl.List) > 0 && len(rl.List[0].Names) > 0 {
			objs[0] = fd.Pkg.Info.Defs[rl.List[0].Names[0]]
		}
		all := append([]*T{recv}, args...)
		if recv == nil {
			all[0] = Nil()
		}
		pinned := false
		for i, x := range all {
			var o types.Object
			if i < len(objs) {
				o = objs[i]
			}
			pinned = pinned || in.pinnedArg(x, o)
		}
		if !pinned {
			goto plain
		}
		return in.callMu("func "+fullName(fd.Obj), shortName(fd.Obj), nil, all, objs, sig.Results().Len(), st, pos, func(args []*T, st *State) []*T {
			return run(args[0], args[1:], st)
		})
	}
plain:
	if in.active[fd.Obj] > 0 || len(in.stack) > in.maxDepth {
		// left open: evaluated from the function's own summary
		fz := []*T{}
		for _, x := range append([]*T{recv}, args...) {
			if x == nil {
				x = Nil()
			}
			x = in.freeze(st, x, true, pos)
			if x.op == OPtr || x.op == OFunc {
				in.lossy(pos, "recursive call of %s with shared state", fd.Obj.FullName())
			}
			fz = append(fz, x)
		}
		it := in.emit(st, "call", "rec:"+fullName(fd.Obj), pos, fz...)
		if in.recEv == nil {
			in.recEv = map[int64]*Item{}
		}
		in.recEv[int64(it.id)] = it
		out := make([]*T, sig.Results().Len())
		for i := range out {
			out[i] = in.res(it, fmt.Sprint(i))
		}
		return out
	}
	return run(recv, args, st)
}

func shortName(fn *types.Func) string {
	s := fullName(fn)
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = strings.TrimPrefix(s[i+1:], "")
	}
	return s
}

func (in *Interp) runBody(fr *Frame, ft *ast.FuncType, rl *ast.FieldList, recv *T, body *ast.BlockStmt, sig *types.Signature, inst map[*types.TypeParam]types.Type, args []*T, st *State, pos token.Pos) []*T {
	info := fr.pkg.Info
	if rl != nil && len(rl.List) > 0 && len(rl.List[0].Names) > 0 {
		if o := info.Defs[rl.List[0].Names[0]]; o != nil {
			in.declObj(fr, o, recv, st, pos)
		}
	}
	i := 0
	for _, fl := range ft.Params.List {
		for _, n := range fl.Names {
			if o := info.Defs[n]; o != nil && i < len(args) {
				in.declObj(fr, o, args[i], st, pos)
			}
			i++
		}
		if len(fl.Names) == 0 {
			i++
		}
	}
	fr.results = []int{}
	if ft.Results != nil {
		for _, fl := range ft.Results.List {
			if len(fl.Names) == 0 {
				c := in.newCell(st, in.typeOf(fr, fl.Type), "result", zero(in.inst(fr, in.typeOf(fr, fl.Type))), false, pos)
				fr.results = append(fr.results, c)
			}
			for _, n := range fl.Names {
				o := info.Defs[n]
				c := in.newCell(st, in.typeOf(fr, fl.Type), n.Name, zero(in.inst(fr, in.typeOf(fr, fl.Type))), false, pos)
				if o != nil {
					fr.env[o] = c
				}
				fr.results = append(fr.results, c)
			}
		}
	}
	entryPC := append([]*T{}, st.pc...)
	dead0 := in.deadFlows
	n, flows := in.execBlock(fr, body.List, st)
	var rets []*State
	for _, x := range flows {
		if x.kind == fReturn {
			rets = append(rets, x.st)
		} else {
			in.lossy(pos, "unresolved jump in %s", fr.name)
		}
	}
	if n != nil {
		rets = append(rets, n)
	}
	m := in.merge(rets)
	if m == nil {
		st.dead = true
		out := make([]*T, len(fr.results))
		for i := range out {
			out[i] = Undef("dead")
		}
		return out
	}
	if in.deadFlows == dead0 {
		m.pc = entryPC
	}
	m = in.runDefers(fr, m)
	*st = *m
	out := make([]*T, len(fr.results))
	for i, c := range fr.results {
		out[i] = st.m[c]
	}
	return out
}

// builtins

func (in *Interp) builtin(f *Frame, name string, call *ast.CallExpr, st *State) func(*State) []*T {
	var a []*T
	if name != "make" && name != "new" {
		for _, e := range call.Args {
			a = append(a, in.eval(f, e, st))
		}
	}
	pos := call.Pos()
	one := func(t *T) []*T { return []*T{t} }
	return func(st *State) []*T {
		switch name {
		case "len":
			c := in.content(st, a[0])
			t := in.typeOf(f, call.Args[0])
			if isMapT(t) {
				return one(Len(mk(OKeys, "", 0, nil, nil, nil, c)))
			}
			if isPtrT(t) {
				c = in.load(st, in.ptrLV(st, c, pos))
			}
			return one(Len(c))
		case "cap":
			return one(Call("cap", in.content(st, a[0])))
		case "append":
			return one(in.appendCall(f, call, a, st))
		case "copy":
			return one(in.copyCall(f, call, a, st))
		case "make":
			t := in.typeOf(f, call.Args[0])
			t = in.inst(f, t)
			switch u := under(t).(type) {
			case *types.Slice:
				n := in.eval(f, call.Args[1], st)
				exact := len(call.Args) == 2
				if !exact {
					c := in.eval(f, call.Args[2], st)
					in.check(st, "makeslice: cap out of range", And(Not(Lt(c, n)), Not(Lt(c, Int(0)))), pos)
					if n.isInt() && n.n == 0 {
						exact = false
					}
				}
				in.check(st, "makeslice: len out of range", Not(Lt(n, Int(0))), pos)
				return one(in.newSlice(st, t, Replicate(n, zero(u.Elem())), exact, pos))
			case *types.Map:
				return one(in.newMap(st, t, MEmpty(), pos))
			}
			in.note(pos, "make of %s", t)
			return one(Undef("make"))
		case "new":
			t := in.inst(f, in.typeOf(f, call.Args[0]))
			c := in.newCell(st, t, "new", zero(t), false, pos)
			return one(in.addr(&LV{cell: c}))
		case "delete":
			c := in.content(st, a[0])
			key := in.freeze(st, a[1], false, pos)
			nv := Del(c, key)
			if in.mapCells(a[0], Bool(true), func(c int, cond *T) {
				old := st.m[c]
				in.store(st, &LV{cell: c, slot: key}, Ite(cond, Del(old, key), old), pos)
			}) {
				return nil
			}
			switch a[0].op {
			default:
				lv := in.resolveOrTemp(f, call.Args[0], st)
				in.emit(st, "note", "store-alias", pos, a[0])
				in.store(st, lv, nv, pos)
			}
			return nil
		case "clear":
			lv := in.resolveOrTemp(f, call.Args[0], st)
			if a[0].op == OMapV {
				lv = &LV{cell: int(a[0].n)}
			}
			if isMapT(in.typeOf(f, call.Args[0])) {
				in.store(st, lv, MEmpty(), pos)
			} else {
				c := in.content(st, a[0])
				t := elemType(in.typeOf(f, call.Args[0]))
				if a[0].op == OSliceV {
					lv = &LV{cell: int(a[0].n)}
				}
				in.store(st, lv, Replicate(Len(c), zero(t)), pos)
			}
			return nil
		case "min", "max":
			r := a[0]
			for _, x := range a[1:] {
				if name == "min" {
					r = Ite(Lt(x, r), x, r)
				} else {
					r = Ite(Lt(r, x), x, r)
				}
			}
			return one(r)
		case "panic":
			in.emit(st, "check", "explicit panic", pos, Bool(false))
			st.dead = true
			in.deadFlows++
			return nil
		case "print", "println":
			return nil
		case "recover":
			in.lossy(pos, "recover")
			return one(Nil())
		}
		in.note(pos, "builtin %s", name)
		return one(Undef(name))
	}
}

func (in *Interp) appendCall(f *Frame, call *ast.CallExpr, a []*T, st *State) *T {
	t := in.typeOf(f, call)
	t = in.inst(f, t)
	base := in.content(st, a[0])
	if base.op == ONil {
		base = Seq()
	}
	var rest *T
	if call.Ellipsis.IsValid() {
		r := in.content(st, a[1])
		if isStringT(in.typeOf(f, call.Args[1])) || r.op == OStr || r.op == OCat {
			return Cat(base, r)
		}
		rest = asSeqOr(r)
	} else {
		var it []*T
		for _, x := range a[1:] {
			it = append(it, Elem(in.freeze(st, x, true, call.Pos())))
		}
		rest = Seq(it...)
		if b, ok := under(elemType(t)).(*types.Basic); ok && b.Kind() == types.Byte && len(a) >= 1 {
			if base.op == OStr || base.op == OCat || base.op == OCall {
				parts := []*T{base}
				for _, x := range a[1:] {
					parts = append(parts, Call("chr", x))
				}
				return Cat(parts...)
			}
		}
	}
	in.noteAppend(st, a[0], call.Pos(), rest)
	if len(asSeq(rest).a) == 0 {
		return a[0]
	}
	r := in.newSlice(st, t, Concat(base, rest), false, call.Pos())
	if a[0].op == OSliceV {
		b := int(a[0].n)
		if m := in.meta[b]; m != nil && m.partial {
			in.clobbered(st, m.view, call.Pos())
			if m.foreign {
				in.emit(st, "note", "append-alias", call.Pos(), base, Len(asSeqOr(rest)))
			}
		}
		if m := in.meta[b]; m != nil && !m.exactCap {
			// two results grown from one base may share storage
			for _, o := range in.appended[b] {
				if pp, ok := in.published[o]; ok {
					in.emit(st, "note", "sibling-append", call.Pos(), Str(in.prog.Pos(pp)))
				}
				if st.clob == nil {
					st.clob = map[int]bool{}
				}
				st.clob[o] = true
			}
			in.appended[b] = append(in.appended[b], int(r.n))
			in.share(b, int(r.n))
		}
	}
	return r
}

// noteAppend records growth of storage that does not belong to the function.
func (in *Interp) noteAppend(st *State, base *T, pos token.Pos, rest *T) {
	switch base.op {
	case OSym, OField, OIdx, OCall, ORes, OSlice, OGet:
		in.emit(st, "note", "append-alias", pos, base, Len(asSeqOr(rest)))
	case OSliceV:
		m := in.meta[int(base.n)]
		if m != nil && m.input {
			in.emit(st, "note", "append-alias", pos, base, Len(asSeqOr(rest)))
		}
		if m != nil && m.from != nil && !m.capped && !m.partial {
			in.emit(st, "note", "append-alias", pos, m.from, Len(asSeqOr(rest)))
		}
	}
}

func (in *Interp) copyCall(f *Frame, call *ast.CallExpr, a []*T, st *State) *T {
	pos := call.Pos()
	dst, src := in.content(st, a[0]), asSeqOr(in.content(st, a[1]))
	ld, ls := Len(dst), Len(src)
	n := Ite(Lt(ls, ld), ls, ld)
	var nv *T
	if ld == ls {
		nv = src
	} else {
		nv = Seq(Splice(SliceOf(src, Int(0), n)), Splice(SliceOf(dst, n, ld)))
	}
	switch a[0].op {
	case OSliceV:
		in.store(st, &LV{cell: int(a[0].n)}, nv, pos)
	default:
		in.emit(st, "note", "store-alias", pos, a[0])
		in.lossy(pos, "copy into storage that is not local")
	}
	return n
}

func (in *Interp) convert(v *T, from, to types.Type, st *State, pos token.Pos) *T {
	fu, tu := under(from), under(to)
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		if tb.Info()&types.IsString != 0 && fb.Info()&types.IsInteger != 0 {
			if v.isInt() {
				return Str(string(rune(v.n)))
			}
			return Call("rune2str", v)
		}
		if tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0 {
			if k := intKind(to); k != intKind(from) && !fits(intKind(from), k) {
				return wrapInt(v, k)
			}
			return v
		}
		if tb.Info()&types.IsFloat != 0 || fb.Info()&types.IsFloat != 0 {
			if tb.Info()&types.IsFloat != 0 && fb.Info()&types.IsFloat != 0 {
				return v
			}
			return mk(OConv, "float", 0, nil, nil, nil, v)
		}
		return v
	}
	if tok && tb.Info()&types.IsString != 0 {
		// []byte or []rune to string
		c := in.content(st, v)
		if c.op == OSeq {
			return Call("seq2str", c)
		}
		return c
	}
	if fok && fb.Info()&types.IsString != 0 {
		if isSliceT(to) {
			if b, ok := under(elemType(to)).(*types.Basic); ok && b.Kind() == types.Byte {
				return v // byte slices made from strings are read-only strings here
			}
			return Call("runes", v)
		}
	}
	if v.op == OStruct {
		if _, ok := tu.(*types.Struct); ok {
			return Struct(to, v.a...)
		}
	}
	return v
}

// fits tells whether every value of the first integer kind is one of the other.
func fits(from, to string) bool {
	switch to {
	case "":
		return true // large unsigned numbers aside
	case "u64":
		return len(from) > 0 && from[0] == 'u'
	case "u32":
		return from == "u8" || from == "u16"
	case "i32":
		return from == "u8" || from == "u16" || from == "i8" || from == "i16"
	case "u16":
		return from == "u8"
	case "i16":
		return from == "u8" || from == "i8"
	}
	return false
}
