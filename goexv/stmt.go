package main

import (
	"go/ast"
	"go/token"
	"go/types"
)

type flowKind int

const (
	fBreak flowKind = iota
	fContinue
	fReturn
	fGoto
	fFall
)

type Flow struct {
	kind  flowKind
	label string
	st    *State
}

func (in *Interp) execBlock(f *Frame, list []ast.Stmt, st *State) (*State, []Flow) {
	var out []Flow
	pending := map[string][]*State{}
	labels := map[string]bool{}
	for _, s := range list {
		if l, ok := s.(*ast.LabeledStmt); ok {
			labels[l.Label.Name] = true
		}
	}
	passed := map[string]bool{}
	cur := st
	for _, s := range list {
		if l, ok := s.(*ast.LabeledStmt); ok {
			passed[l.Label.Name] = true
			if ps := pending[l.Label.Name]; len(ps) > 0 {
				all := ps
				if cur != nil {
					all = append(append([]*State{}, ps...), cur)
				}
				cur = in.merge(all)
				delete(pending, l.Label.Name)
			}
		}
		if cur == nil || cur.dead {
			if cur != nil {
				cur = nil
			}
			continue
		}
		next, fl := in.exec(f, s, cur, "")
		for _, x := range fl {
			if x.st == nil || x.st.dead {
				continue
			}
			if x.kind == fGoto && labels[x.label] {
				if passed[x.label] {
					in.lossy(s.Pos(), "backward goto %s", x.label)
					continue
				}
				pending[x.label] = append(pending[x.label], x.st)
				continue
			}
			out = append(out, x)
		}
		cur = next
	}
	if cur != nil && cur.dead {
		cur = nil
	}
	return cur, out
}

func (in *Interp) declare(f *Frame, id *ast.Ident, v *T, st *State) {
	if id.Name == "_" {
		return
	}
	o := f.pkg.Info.Defs[id]
	if o == nil {
		return
	}
	c := in.newCell(st, o.Type(), id.Name, v, false, id.Pos())
	f.env[o] = c
}

func (in *Interp) declObj(f *Frame, o types.Object, v *T, st *State, pos token.Pos) {
	c := in.newCell(st, o.Type(), o.Name(), v, false, pos)
	f.env[o] = c
}

func (in *Interp) assign(f *Frame, lhs ast.Expr, v *T, st *State, def bool) {
	if id, ok := lhs.(*ast.Ident); ok {
		if id.Name == "_" {
			return
		}
		if def {
			if o := f.pkg.Info.Defs[id]; o != nil {
				in.declare(f, id, v, st)
				return
			}
		}
	}
	lv := in.resolve(f, lhs, st)
	in.assignLV(lv, v, st, lhs.Pos())
}

func (in *Interp) assignLV(lv *LV, v *T, st *State, pos token.Pos) {
	if lv.mapv != nil {
		mv := in.load(st, lv.mapv)
		in.check(st, "assignment to nil map", Not(Eq(mv, Nil())), pos)
		key := in.freeze(st, lv.key, false, pos)
		fv := in.freeze(st, v, true, pos)
		nv := Put(in.content(st, mv), key, fv)
		if mv.op == OMapV || mv.op == OIte {
			if in.mapCells(mv, Bool(true), func(c int, cond *T) {
				old := st.m[c]
				in.store(st, &LV{cell: c, slot: key}, Ite(cond, Put(old, key, fv), old), pos)
				in.inserted(st, v, &link{cell: c, key: key, cond: cond})
			}) {
				return
			}
			in.lossy(pos, "store to a map that is not resolved")
		} else {
			switch mv.op {
			case OSym, OField, OIdx, OCall, ORes:
				in.emit(st, "note", "store-alias", pos, mv)
			}
			in.store(st, lv.mapv, nv, pos)
		}
		return
	}
	in.store(st, lv, v, pos)
}

func (in *Interp) exec(f *Frame, s ast.Stmt, st *State, label string) (*State, []Flow) {
	info := f.pkg.Info
	switch x := s.(type) {
	case *ast.EmptyStmt:
		return st, nil
	case *ast.ExprStmt:
		in.eval(f, x.X, st)
		return st, nil
	case *ast.DeclStmt:
		gd, ok := x.Decl.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			return st, nil
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					in.declare(f, n, in.zeroOf(f, info.Defs[n]), st)
				}
				continue
			}
			vals := in.evalMulti(f, vs.Values, len(vs.Names), st)
			for i, n := range vs.Names {
				if i < len(vs.Values) {
					vals[i] = in.bindRef(f, f.pkg.Info.Defs[n], vs.Values[i], vals[i], st)
				}
				in.declare(f, n, vals[i], st)
			}
		}
		return st, nil
	case *ast.AssignStmt:
		return in.execAssign(f, x, st)
	case *ast.IncDecStmt:
		lv := in.resolve(f, x.X, st)
		d := int64(1)
		if x.Tok == token.DEC {
			d = -1
		}
		if lv.mapv != nil {
			old := MGet(in.content(st, in.load(st, lv.mapv)), lv.key, Int(0))
			in.assignLV(lv, Add(old, Int(d)), st, x.Pos())
			return st, nil
		}
		in.store(st, lv, Add(in.load(st, lv), Int(d)), x.Pos())
		return st, nil
	case *ast.BlockStmt:
		return in.execBlock(f, x.List, st)
	case *ast.IfStmt:
		if x.Init != nil {
			n, fl := in.exec(f, x.Init, st, "")
			if n == nil {
				return nil, fl
			}
			st = n
		}
		c := in.eval(f, x.Cond, st)
		if st.dead {
			return nil, nil
		}
		a, b := st.clone(), st.clone()
		a.assume(c)
		b.assume(Not(c))
		var na, nb *State
		var out []Flow
		if !a.dead {
			var fl []Flow
			na, fl = in.execBlock(f, x.Body.List, a)
			out = append(out, fl...)
		}
		if !b.dead {
			if x.Else != nil {
				var fl []Flow
				nb, fl = in.exec(f, x.Else, b, "")
				out = append(out, fl...)
			} else {
				nb = b
			}
		}
		return in.merge([]*State{na, nb}), out
	case *ast.SwitchStmt:
		return in.execSwitch(f, x, st, label)
	case *ast.TypeSwitchStmt:
		return in.execTypeSwitch(f, x, st, label)
	case *ast.ForStmt:
		return in.execFor(f, x, st, label)
	case *ast.RangeStmt:
		return in.execRange(f, x, st, label)
	case *ast.LabeledStmt:
		return in.exec(f, x.Stmt, st, x.Label.Name)
	case *ast.BranchStmt:
		l := ""
		if x.Label != nil {
			l = x.Label.Name
		}
		k := map[token.Token]flowKind{token.BREAK: fBreak, token.CONTINUE: fContinue, token.GOTO: fGoto, token.FALLTHROUGH: fFall}[x.Tok]
		return nil, []Flow{{k, l, st}}
	case *ast.ReturnStmt:
		root := f
		for root.results == nil && root.sig == nil && root.parent != nil {
			root = root.parent
		}
		if len(x.Results) > 0 {
			vals := in.evalMulti(f, x.Results, len(root.results), st)
			if st.dead {
				return nil, nil
			}
			for i, c := range root.results {
				if i < len(vals) {
					st.m[c] = vals[i]
				}
			}
		}
		return nil, []Flow{{fReturn, "", st}}
	case *ast.DeferStmt:
		in.execDefer(f, x, st)
		return st, nil
	case *ast.GoStmt:
		in.emit(st, "note", "go-statement", x.Pos())
		in.lossy(x.Pos(), "go statement")
		return st, nil
	}
	in.lossy(s.Pos(), "statement %T not understood", s)
	return st, nil
}

func (in *Interp) zeroOf(f *Frame, o types.Object) *T {
	if o == nil {
		return Nil()
	}
	return zero(in.inst(f, o.Type()))
}

func (in *Interp) inst(f *Frame, t types.Type) types.Type {
	generic := false
	for g := f; g != nil; g = g.parent {
		if len(g.tparams) > 0 {
			generic = true
		}
	}
	if !generic {
		return t
	}
	return substType(t, func(tp *types.TypeParam) types.Type {
		for g := f; g != nil; g = g.parent {
			if r, ok := g.tparams[tp]; ok {
				return r
			}
		}
		return nil
	})
}

// typeOf is the type of an expression with the type arguments of the frame.
func (in *Interp) typeOf(f *Frame, e ast.Expr) types.Type {
	return in.inst(f, f.pkg.Info.TypeOf(e))
}

func substType(t types.Type, get func(*types.TypeParam) types.Type) types.Type {
	switch u := t.(type) {
	case *types.TypeParam:
		if r := get(u); r != nil {
			return r
		}
	case *types.Slice:
		if e := substType(u.Elem(), get); e != u.Elem() {
			return types.NewSlice(e)
		}
	case *types.Pointer:
		if e := substType(u.Elem(), get); e != u.Elem() {
			return types.NewPointer(e)
		}
	case *types.Array:
		if e := substType(u.Elem(), get); e != u.Elem() {
			return types.NewArray(e, u.Len())
		}
	case *types.Map:
		k, e := substType(u.Key(), get), substType(u.Elem(), get)
		if k != u.Key() || e != u.Elem() {
			return types.NewMap(k, e)
		}
	case *types.Tuple:
		vs := make([]*types.Var, u.Len())
		diff := false
		for i := range vs {
			vs[i] = u.At(i)
			if e := substType(vs[i].Type(), get); e != vs[i].Type() {
				vs[i] = types.NewVar(vs[i].Pos(), vs[i].Pkg(), vs[i].Name(), e)
				diff = true
			}
		}
		if diff {
			return types.NewTuple(vs...)
		}
	case *types.Signature:
		ps, rs := substType(u.Params(), get), substType(u.Results(), get)
		if ps != types.Type(u.Params()) || rs != types.Type(u.Results()) {
			return types.NewSignatureType(nil, nil, nil, ps.(*types.Tuple), rs.(*types.Tuple), u.Variadic())
		}
	case *types.Named:
		if u.TypeArgs() == nil {
			return t
		}
		as := make([]types.Type, u.TypeArgs().Len())
		diff := false
		for i := range as {
			as[i] = substType(u.TypeArgs().At(i), get)
			diff = diff || as[i] != u.TypeArgs().At(i)
		}
		if diff {
			if n, err := types.Instantiate(nil, u.Origin(), as, false); err == nil {
				return n
			}
		}
	}
	return t
}

// evalMulti evaluates an expression list, spreading a single call.
func (in *Interp) evalMulti(f *Frame, es []ast.Expr, n int, st *State) []*T {
	if len(es) == 1 && n > 1 {
		v := in.eval(f, es[0], st)
		if v.op == OTuple {
			return v.a
		}
		out := make([]*T, n)
		for i := range out {
			out[i] = Undef("tuple")
		}
		return out
	}
	var out []*T
	for _, e := range es {
		out = append(out, in.eval(f, e, st))
	}
	return out
}

func (in *Interp) execAssign(f *Frame, x *ast.AssignStmt, st *State) (*State, []Flow) {
	info := f.pkg.Info
	def := x.Tok == token.DEFINE
	if x.Tok != token.ASSIGN && !def {
		ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
			token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR,
			token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}
		lv := in.resolve(f, x.Lhs[0], st)
		r := in.eval(f, x.Rhs[0], st)
		var old *T
		if lv.mapv != nil {
			old = MGet(in.content(st, in.load(st, lv.mapv)), lv.key, zero(in.typeOf(f, x.Lhs[0])))
		} else {
			old = in.load(st, lv)
		}
		v := in.binop(f, ops[x.Tok], old, r, in.typeOf(f, x.Lhs[0]), in.typeOf(f, x.Rhs[0]), st, x.Pos())
		in.assignLV(lv, v, st, x.Pos())
		return st, nil
	}
	vals := in.evalMulti(f, x.Rhs, len(x.Lhs), st)
	if st.dead {
		return nil, nil
	}
	for i, l := range x.Lhs {
		if id, ok := l.(*ast.Ident); ok && (i < len(x.Rhs)) {
			o := info.Defs[id]
			if o == nil {
				o = info.Uses[id]
			}
			if b := in.bindRef(f, o, x.Rhs[i], vals[i], st); b != vals[i] {
				vals = append([]*T{}, vals...)
				vals[i] = b
			}
		}
	}
	if len(x.Lhs) == 1 {
		in.assign(f, x.Lhs[0], vals[0], st, def)
		if st.dead {
			return nil, nil
		}
		return st, nil
	}
	// parallel assignment: locations are resolved before stores
	type tgt struct {
		lv  *LV
		def *ast.Ident
	}
	tg := make([]tgt, len(x.Lhs))
	for i, l := range x.Lhs {
		if id, ok := l.(*ast.Ident); ok {
			if id.Name == "_" {
				continue
			}
			if def && info.Defs[id] != nil {
				tg[i].def = id
				continue
			}
		}
		tg[i].lv = in.resolve(f, l, st)
	}
	for i := range tg {
		if tg[i].def != nil {
			in.declare(f, tg[i].def, vals[i], st)
		} else if tg[i].lv != nil {
			in.assignLV(tg[i].lv, vals[i], st, x.Pos())
		}
	}
	if st.dead {
		return nil, nil
	}
	return st, nil
}

func (in *Interp) execSwitch(f *Frame, x *ast.SwitchStmt, st *State, label string) (*State, []Flow) {
	if x.Init != nil {
		n, fl := in.exec(f, x.Init, st, "")
		if n == nil {
			return nil, fl
		}
		st = n
	}
	var tag *T
	var tagT types.Type
	if x.Tag != nil {
		tag = in.eval(f, x.Tag, st)
		tagT = in.typeOf(f, x.Tag)
	}
	var ends []*State
	var out []Flow
	var def *ast.CaseClause
	defIdx := -1
	clauses := make([]*ast.CaseClause, 0)
	for _, c := range x.Body.List {
		clauses = append(clauses, c.(*ast.CaseClause))
	}
	cur := st
	var fall *State
	run := func(i int, s *State) {
		body := clauses[i].Body
		for {
			n, fl := in.execBlock(f, body, s)
			ends = append(ends, n)
			var ft []*State
			for _, fx := range fl {
				switch {
				case fx.kind == fBreak && (fx.label == "" || fx.label == label):
					ends = append(ends, fx.st)
				case fx.kind == fFall:
					ft = append(ft, fx.st)
				default:
					out = append(out, fx)
				}
			}
			if len(ft) == 0 || i+1 >= len(clauses) {
				return
			}
			s = in.merge(ft)
			i++
			body = clauses[i].Body
		}
	}
	_ = fall
	for i, cc := range clauses {
		if cc.List == nil {
			def = cc
			defIdx = i
			continue
		}
		if cur == nil || cur.dead {
			break
		}
		cond := Bool(false)
		for _, e := range cc.List {
			ev := in.eval(f, e, cur)
			if tag != nil {
				ev = in.binop(f, token.EQL, tag, ev, tagT, in.typeOf(f, e), cur, e.Pos())
			}
			cond = Or(cond, ev)
		}
		a := cur.clone()
		a.assume(cond)
		if !a.dead {
			run(i, a)
		}
		b := cur.clone()
		b.assume(Not(cond))
		cur = b
	}
	if cur != nil && !cur.dead {
		if def != nil {
			run(defIdx, cur)
		} else {
			ends = append(ends, cur)
		}
	}
	return in.merge(ends), out
}

func (in *Interp) execTypeSwitch(f *Frame, x *ast.TypeSwitchStmt, st *State, label string) (*State, []Flow) {
	info := f.pkg.Info
	if x.Init != nil {
		n, fl := in.exec(f, x.Init, st, "")
		if n == nil {
			return nil, fl
		}
		st = n
	}
	var te *ast.TypeAssertExpr
	switch a := x.Assign.(type) {
	case *ast.ExprStmt:
		te = ast.Unparen(a.X).(*ast.TypeAssertExpr)
	case *ast.AssignStmt:
		te = ast.Unparen(a.Rhs[0]).(*ast.TypeAssertExpr)
	}
	v := in.eval(f, te.X, st)
	var ends []*State
	var out []Flow
	var def *ast.CaseClause
	cur := st
	run := func(cc *ast.CaseClause, s *State, val *T) {
		if o := info.Implicits[cc]; o != nil {
			in.declObj(f, o, val, s, cc.Pos())
		}
		n, fl := in.execBlock(f, cc.Body, s)
		ends = append(ends, n)
		for _, fx := range fl {
			if fx.kind == fBreak && (fx.label == "" || fx.label == label) {
				ends = append(ends, fx.st)
			} else {
				out = append(out, fx)
			}
		}
	}
	for _, c := range x.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			continue
		}
		if cur == nil || cur.dead {
			break
		}
		cond := Bool(false)
		val := v
		for _, e := range cc.List {
			if tv, ok := info.Types[e]; ok && tv.IsNil() {
				cond = Or(cond, Eq(v, Nil()))
				continue
			}
			t := in.typeOf(f, e)
			cond = Or(cond, in.hasType(v, t))
			if len(cc.List) == 1 && !isIfaceT(t) && v.op != OStruct {
				val = mk(OConv, "as:"+types.TypeString(t, nil), 0, nil, nil, nil, v)
			}
		}
		a := cur.clone()
		a.assume(cond)
		if !a.dead {
			run(cc, a, val)
		}
		b := cur.clone()
		b.assume(Not(cond))
		cur = b
	}
	if cur != nil && !cur.dead {
		if def != nil {
			run(def, cur, v)
		} else {
			ends = append(ends, cur)
		}
	}
	return in.merge(ends), out
}

func (in *Interp) execDefer(f *Frame, x *ast.DeferStmt, st *State) {
	call := x.Call
	root := f
	for root.sig == nil && root.parent != nil {
		root = root.parent
	}
	if fl, ok := ast.Unparen(call.Fun).(*ast.FuncLit); ok && len(call.Args) == 0 {
		st.defers = append(st.defers, &deferRec{root, func(s *State) {
			in.callLit(&FuncVal{lit: fl, frame: f}, nil, s, x.Pos(), f.pkg)
		}, Bool(true)})
		return
	}
	// evaluate the callee's receiver and the arguments now
	run := in.prepareCall(f, call, st)
	st.defers = append(st.defers, &deferRec{root, func(s *State) { run(s) }, Bool(true)})
}

func (in *Interp) runDefers(f *Frame, st *State) *State {
	for i := len(st.defers) - 1; i >= 0; i-- {
		d := st.defers[i]
		if d.frame != f {
			continue
		}
		st.defers = append(st.defers[:i:i], st.defers[i+1:]...)
		if d.cond.isTrue() {
			d.run(st)
		} else {
			a, b := st.clone(), st.clone()
			a.assume(d.cond)
			b.assume(Not(d.cond))
			if !a.dead {
				d.run(a)
			}
			pc := st.pc
			if m := in.merge([]*State{a, b}); m != nil {
				*st = *m
				st.pc = pc
			} else {
				st.dead = true
			}
		}
		if st.dead {
			return st
		}
		i = len(st.defers)
	}
	return st
}
