package main

import (
	"go/ast"
	"go/token"
	"go/types"
)

// Terms are values: a slice, map or pointer read out of a container is a copy
// of what it refers to. Where the program writes through such a reference, the
// storage is given a cell of its own that is linked to its place in the
// container, and the write is carried over.

type link struct {
	cell int
	path []pe
	key  *T // map slot, when set
	cond *T // when the cell really is the storage at that place
	bad  string
	// the cell stands for all of the other one, on one of the paths that met
	whole bool
}

// joined records that a reference came from one of two paths.
func (in *Interp) joined(out *State, nc int, c, a, b *T) {
	var ls []*link
	refCells(a, func(x int) { ls = append(ls, &link{cell: x, cond: c, whole: true}) })
	refCells(b, func(x int) { ls = append(ls, &link{cell: x, cond: Not(c), whole: true}) })
	out.link(nc, ls...)
}

// findWritten marks the variables through which storage is written.
func (p *Program) findWritten() {
	p.written = map[types.Object]bool{}
	type edge struct{ from, to types.Object } // to written => from written
	var edges []edge
	isRef := func(o types.Object) bool {
		if o == nil {
			return false
		}
		switch o.Type().Underlying().(type) {
		case *types.Slice, *types.Map, *types.Pointer:
			return true
		}
		return false
	}
	scan := func(pk *Pkg, body ast.Node) {
		info := pk.Info
		var root func(e ast.Expr) types.Object
		root = func(e ast.Expr) types.Object {
			switch x := e.(type) {
			case *ast.ParenExpr:
				return root(x.X)
			case *ast.Ident:
				o := info.Uses[x]
				if o == nil {
					o = info.Defs[x]
				}
				if v, ok := o.(*types.Var); ok {
					return v
				}
			case *ast.IndexExpr:
				return root(x.X)
			case *ast.SliceExpr:
				return root(x.X)
			case *ast.StarExpr:
				return root(x.X)
			case *ast.SelectorExpr:
				if _, ok := info.Selections[x]; ok {
					return root(x.X)
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					return root(x.X)
				}
			}
			return nil
		}
		mark := func(e ast.Expr) {
			if _, ok := ast.Unparen(e).(*ast.Ident); ok {
				return // rebinding
			}
			if o := root(e); isRef(o) {
				p.written[o] = true
			}
		}
		markArg := func(e ast.Expr) {
			if o := root(e); isRef(o) {
				p.written[o] = true
			}
		}
		flow := func(l, r ast.Expr) {
			id, ok := l.(*ast.Ident)
			if !ok {
				return
			}
			o := info.Defs[id]
			if o == nil {
				o = info.Uses[id]
			}
			if ro := root(r); isRef(o) && ro != nil {
				edges = append(edges, edge{ro, o})
			}
		}
		ast.Inspect(body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				for i, l := range x.Lhs {
					mark(l)
					if i < len(x.Rhs) {
						flow(l, x.Rhs[i])
					}
				}
			case *ast.ValueSpec:
				for i, l := range x.Names {
					if i < len(x.Values) {
						flow(l, x.Values[i])
					}
				}
			case *ast.IncDecStmt:
				mark(x.X)
			case *ast.RangeStmt:
				if x.Value != nil {
					flow(x.Value, x.X)
				}
				if x.Tok == token.ASSIGN {
					if x.Key != nil {
						mark(x.Key)
					}
					if x.Value != nil {
						mark(x.Value)
					}
				}
			case *ast.CallExpr:
				var fn *types.Func
				fun := ast.Unparen(x.Fun)
				if ix, ok := fun.(*ast.IndexExpr); ok {
					fun = ix.X
				}
				switch y := fun.(type) {
				case *ast.Ident:
					switch o := info.Uses[y].(type) {
					case *types.Builtin:
						switch o.Name() {
						case "delete", "copy", "clear":
							markArg(x.Args[0])
						}
					case *types.Func:
						fn = o.Origin()
					}
				case *ast.SelectorExpr:
					fn, _ = info.Uses[y.Sel].(*types.Func)
					if fn == nil {
						break
					}
					fn = fn.Origin()
					if fn.Pkg() != nil && (fn.Pkg().Path() == "sort" || fn.Pkg().Path() == "slices") && len(x.Args) > 0 {
						markArg(x.Args[0])
					}
					if s, ok := info.Selections[y]; ok && s.Kind() == types.MethodVal {
						if fd := p.Funcs[fn]; fd != nil && fd.Decl.Recv != nil && len(fd.Decl.Recv.List) > 0 && len(fd.Decl.Recv.List[0].Names) > 0 {
							ro := fd.Pkg.Info.Defs[fd.Decl.Recv.List[0].Names[0]]
							if o := root(y.X); o != nil && ro != nil {
								edges = append(edges, edge{o, ro})
							}
						}
					}
				}
				if fn == nil {
					break
				}
				if fd := p.Funcs[fn]; fd != nil {
					for i, o := range paramObjs(fd) {
						if i < len(x.Args) && o != nil {
							if r := root(x.Args[i]); r != nil {
								edges = append(edges, edge{r, o})
							}
						}
					}
				}
			}
			return true
		})
	}
	for _, fd := range p.Funcs {
		if fd.Decl.Body != nil {
			scan(fd.Pkg, fd.Decl.Body)
		}
	}
	for _, fd := range p.prelude {
		scan(fd.Pkg, fd.Decl.Body)
	}
	for again := true; again; {
		again = false
		for _, e := range edges {
			if p.written[e.to] && !p.written[e.from] {
				p.written[e.from] = true
				again = true
			}
		}
	}
}

func paramObjs(fd *FuncDecl) []types.Object {
	var r []types.Object
	for _, fl := range fd.Decl.Type.Params.List {
		for _, n := range fl.Names {
			r = append(r, fd.Pkg.Info.Defs[n])
		}
		if len(fl.Names) == 0 {
			r = append(r, nil)
		}
	}
	return r
}

func isRefT(t types.Type) bool { return isSliceT(t) || isMapT(t) || isPtrT(t) }

// pureRef tells whether v stands for the contents of storage it does not name.
func pureRef(v *T) bool {
	switch v.op {
	case OSliceV, OMapV, ONil, OPtr, OFunc, OUndef, OErr, OSeq, OMEmpty, OStr, OCat:
		return false
	case OIte:
		return pureRef(v.a[1]) && pureRef(v.a[2])
	case OIdx, OGet, OField, OPh:
		return true
	case OSym:
		return len(v.k) > 3 && v.k[:3] == "st:"
	}
	return false
}

// hasHandle tells whether a value names storage by its cell, or none at all.
func hasHandle(v *T) bool {
	switch v.op {
	case OSliceV, OMapV, ONil, OPtr, OFunc, OUndef, OErr:
		return true
	case OIte:
		a, b := v.a[1], v.a[2]
		return a.op != ONil && hasHandle(a) || b.op != ONil && hasHandle(b)
	}
	return false
}

// boxedRef tells whether a value of pointer type is represented by what it
// points to.
func boxedRef(v *T) bool {
	switch v.op {
	case OStruct:
		return true
	case OIte:
		return boxedRef(v.a[1]) && boxedRef(v.a[2])
	}
	return pureRef(v)
}

func hasCalls(e ast.Expr) bool {
	r := false
	ast.Inspect(e, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			id, _ := ast.Unparen(c.Fun).(*ast.Ident)
			switch {
			case id == nil:
				r = true
			case id.Name == "len" || id.Name == "cap" || id.Name == "min" || id.Name == "max" || id.Name == "int":
			default:
				r = true
			}
		}
		return !r
	})
	return r
}

// quietly evaluates without recording effects.
func (in *Interp) quietly(f func()) {
	saved := in.trace
	var tr []*Item
	in.trace = &tr
	f()
	in.trace = saved
}

// bindRef gives the storage a reference denotes a cell of its own when o, which
// is about to hold the reference, is written through.
func (in *Interp) bindRef(f *Frame, o types.Object, e ast.Expr, v *T, st *State) *T {
	if o == nil || !in.prog.written[o] || !isRefT(o.Type()) {
		return v
	}
	if !pureRef(v) && !(isSliceT(o.Type()) || isMapT(o.Type())) || hasHandle(v) {
		return v
	}
	e = ast.Unparen(e)
	switch e.(type) {
	case *ast.IndexExpr, *ast.SelectorExpr, *ast.StarExpr, *ast.Ident:
	default:
		return v
	}
	if st.dead {
		return v
	}
	if hasCalls(e) {
		if isSliceT(o.Type()) {
			c := in.newCell(st, o.Type(), "linked", asSeqOr(v), true, e.Pos())
			in.meta[c].from, in.meta[c].capped = in.origin(v)
			st.link(c, &link{bad: "place computed by a call", cond: Bool(true)})
			h := mk(OSliceV, "", int64(c), nil, nil, nil)
			if mayNil(v) {
				return Ite(Eq(v, Nil()), Nil(), h)
			}
			return h
		}
		return v
	}
	var lv *LV
	in.quietly(func() { lv = in.resolve(f, e, st) })
	return in.linked(st, o.Type(), v, lv, e.Pos())
}

func (in *Interp) linked(st *State, t types.Type, v *T, lv *LV, pos token.Pos) *T {
	var ls []*link
	var add func(lv *LV, cond *T) bool
	add = func(lv *LV, cond *T) bool {
		switch {
		case lv.bad != "" || lv.ro:
			return false
		case lv.cond != nil:
			return add(lv.a, And(cond, lv.cond)) && add(lv.b, And(cond, Not(lv.cond)))
		case lv.mapv != nil:
			m := in.load(st, lv.mapv)
			return in.mapCells(m, cond, func(c int, cond *T) {
				ls = append(ls, &link{cell: c, key: in.freeze(st, lv.key, false, pos), cond: cond})
			})
		}
		ls = append(ls, &link{cell: lv.cell, path: lv.path, cond: cond})
		return true
	}
	if !add(lv, Bool(true)) || len(ls) == 0 {
		return v
	}
	if pt, ok := under(t).(*types.Pointer); ok {
		if !in.boxable(pt) {
			return v
		}
		c := in.newCell(st, pt.Elem(), "linked", v, false, pos)
		st.link(c, ls...)
		return Ite(Eq(v, Nil()), Nil(), in.addr(&LV{cell: c}))
	}
	if isMapT(t) {
		c := in.newCell(st, t, "linked", v, true, pos)
		in.meta[c].from, in.meta[c].capped = in.origin(v)
		st.link(c, ls...)
		return Ite(Eq(v, Nil()), Nil(), mk(OMapV, "", int64(c), nil, nil, nil))
	}
	c := in.newCell(st, t, "linked", asSeqOr(v), true, pos)
	in.meta[c].from, in.meta[c].capped = in.origin(v)
	st.link(c, ls...)
	h := mk(OSliceV, "", int64(c), nil, nil, nil)
	if mayNil(v) {
		return Ite(Eq(v, Nil()), Nil(), h)
	}
	return h
}

// mayNil tells whether one of the alternatives of v is plainly nil.
func mayNil(v *T) bool {
	return v.op == ONil || v.op == OIte && (mayNil(v.a[1]) || mayNil(v.a[2]))
}

// boxable pointers are represented inside containers by what they point to.
func (in *Interp) boxable(pt *types.Pointer) bool {
	n, ok := pt.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil || in.prog.Pkgs[n.Obj().Pkg().Path()] == nil {
		return false
	}
	_, ok = n.Underlying().(*types.Struct)
	return ok
}

// boxedLV locates what a pointer kept in a container points to.
func (in *Interp) boxedLV(f *Frame, e ast.Expr, t types.Type, pv *T, st *State) *LV {
	pt, ok := under(t).(*types.Pointer)
	if !ok || !in.boxable(pt) || !boxedRef(pv) {
		return nil
	}
	e = ast.Unparen(e)
	switch e.(type) {
	case *ast.IndexExpr, *ast.SelectorExpr, *ast.Ident:
	default:
		return nil
	}
	if hasCalls(e) {
		return nil
	}
	var lv *LV
	in.quietly(func() { lv = in.resolve(f, e, st) })
	if lv.mapv != nil {
		c := in.newCell(st, pt.Elem(), "boxed", pv, false, e.Pos())
		return &LV{cell: c, ro: true}
	}
	if _, ok := e.(*ast.Ident); ok {
		cp := *lv
		cp.ro = true
		return &cp
	}
	return lv
}

// mapCells visits the storage a map value may stand for.
func (in *Interp) mapCells(m, cond *T, f func(c int, cond *T)) bool {
	switch m.op {
	case OMapV:
		f(int(m.n), cond)
		return true
	case ONil:
		return true
	case OIte:
		return in.mapCells(m.a[1], And(cond, m.a[0]), f) && in.mapCells(m.a[2], And(cond, Not(m.a[0])), f)
	}
	return false
}

func (s *State) link(c int, ls ...*link) {
	n := make(map[int][]*link, len(s.links)+1)
	for k, v := range s.links {
		n[k] = v
	}
	n[c] = append(append([]*link{}, n[c]...), ls...)
	s.links = n
}

func (s *State) setLinks(c int, ls []*link) {
	n := make(map[int][]*link, len(s.links)+1)
	for k, v := range s.links {
		n[k] = v
	}
	if len(ls) == 0 {
		delete(n, c)
	} else {
		n[c] = ls
	}
	s.links = n
}

// inserted links storage to the slot of a container it was put into.
func (in *Interp) inserted(st *State, v *T, to *link) {
	switch v.op {
	case OSliceV, OMapV:
		st.link(int(v.n), to)
	case OIte:
		a, b := *to, *to
		a.cond, b.cond = And(to.cond, v.a[0]), And(to.cond, Not(v.a[0]))
		in.inserted(st, v.a[1], &a)
		in.inserted(st, v.a[2], &b)
	}
}

// slotStored updates the cells linked to a container after a store to the
// given place of it; inside tells that the store went into what is there.
func (in *Interp) slotStored(st *State, cell int, path []pe, key *T, inside bool, except int) {
	if len(st.links) == 0 {
		return
	}
	for _, x := range sortedLinkKeys(st.links) {
		if x == except {
			continue
		}
		var keep []*link
		changed := false
		for _, l := range st.links[x] {
			if l.cell != cell || l.bad != "" {
				keep = append(keep, l)
				continue
			}
			if l.whole {
				keep = append(keep, l)
				in.refresh(st, x, l)
				continue
			}
			same, differ := true, false
			deeper := len(path) > len(l.path) || inside
			if (key == nil) != (l.key == nil) {
				// the whole map was replaced
				if key != nil {
					same = false
				}
			} else if key != nil {
				e := Eq(key, l.key)
				differ = e.isFalse()
				same = e.isTrue()
			}
			for i := 0; i < len(path) && i < len(l.path) && !differ; i++ {
				a, b := path[i], l.path[i]
				switch {
				case (a.idx == nil) != (b.idx == nil):
					same = false
				case a.idx == nil:
					if a.field != b.field {
						differ = true
					}
				default:
					e := Eq(a.idx, b.idx)
					if e.isFalse() {
						differ = true
					}
					if !e.isTrue() {
						same = false
					}
				}
			}
			switch {
			case differ:
				keep = append(keep, l)
			case deeper:
				keep = append(keep, l)
				in.refresh(st, x, l)
			case same && l.cond.isTrue():
				changed = true // the slot holds something else now
			default:
				keep = append(keep, &link{cell: l.cell, path: l.path, key: l.key, cond: l.cond, bad: "the container slot may have been replaced"})
				changed = true
			}
		}
		if changed {
			st.setLinks(x, keep)
		}
	}
}

func (in *Interp) linkLoad(st *State, l *link) *T {
	base, ok := st.m[l.cell]
	if !ok {
		return nil
	}
	if l.key != nil {
		return MGet(base, l.key, Nil())
	}
	return in.load(st, &LV{cell: l.cell, path: l.path})
}

func (in *Interp) refresh(st *State, x int, l *link) {
	v := in.linkLoad(st, l)
	old, ok := st.m[x]
	if v == nil || !ok {
		return
	}
	v = in.content(st, v)
	if isSliceT(in.meta[x].typ) {
		v = asSeqOr(v)
	}
	st.m[x] = Ite(l.cond, v, old)
	in.slotStored(st, x, nil, nil, true, 0)
}

// propagate carries a write to cell c over to the containers it is linked to.
func (in *Interp) propagate(st *State, c int, pos token.Pos, depth int) {
	if depth > 20 {
		in.lossy(pos, "storage linked in a circle")
		return
	}
	for _, l := range st.links[c] {
		if l.bad != "" {
			in.lossy(pos, "write through a reference: %s", l.bad)
			continue
		}
		base, ok := st.m[l.cell]
		if !ok {
			continue
		}
		if st.clob[c] || st.clob[l.cell] {
			in.lossy(pos, "write through a reference to overwritten storage")
			continue
		}
		m := in.meta[l.cell]
		if m.owner != "" {
			in.emit(st, "note", "write-"+m.owner, pos, Str(m.name))
		}
		v := in.freeze(st, st.m[c], false, pos)
		if l.key != nil {
			st.m[l.cell] = Ite(l.cond, Put(base, l.key, v), base)
		} else {
			if !l.cond.isTrue() {
				v = Ite(l.cond, v, in.linkLoad(st, l))
			}
			st.m[l.cell] = in.upd(st, base, m.typ, l.path, v, pos)
		}
		in.slotStored(st, l.cell, l.path, l.key, true, c)
		if len(in.shares[l.cell]) > 0 {
			in.wrote(st, l.cell)
		} else {
			in.propagate(st, l.cell, pos, depth+1)
		}
	}
}

func sortedLinkKeys(m map[int][]*link) []int {
	b := map[int]bool{}
	for k := range m {
		b[k] = true
	}
	return sortedKeys(b)
}

// mergeLinks joins the links of two paths; sel holds on the first.
func mergeLinks(a, b map[int][]*link, sel *T) map[int][]*link {
	if len(a) == 0 && len(b) == 0 {
		return nil
	}
	out := map[int][]*link{}
	for c, la := range a {
		lb := b[c]
		var r []*link
		for _, x := range la {
			if hasLink(lb, x) {
				r = append(r, x)
			} else {
				y := *x
				y.cond = And(x.cond, sel)
				r = append(r, &y)
			}
		}
		for _, x := range lb {
			if !hasLink(la, x) {
				y := *x
				y.cond = And(x.cond, Not(sel))
				r = append(r, &y)
			}
		}
		out[c] = r
	}
	for c, lb := range b {
		if _, ok := a[c]; ok {
			continue
		}
		for _, x := range lb {
			y := *x
			y.cond = And(x.cond, Not(sel))
			out[c] = append(out[c], &y)
		}
	}
	return out
}

func hasLink(ls []*link, x *link) bool {
	for _, y := range ls {
		if y == x {
			return true
		}
	}
	return false
}

// refCells lists the cells a reference may denote.
func refCells(v *T, f func(c int)) {
	switch v.op {
	case OSliceV, OMapV, OPtr:
		f(int(v.n))
	case OIte:
		refCells(v.a[1], f)
		refCells(v.a[2], f)
	}
}

// carryLinks decides what is still known about links after a loop.
func (in *Interp) carryLinks(entry, e, n *State, pos token.Pos) {
	if len(e.links) == 0 {
		return
	}
	n.links = map[int][]*link{}
	for c, ls := range e.links {
		if _, ok := entry.m[c]; ok {
			for _, l := range ls {
				if l.whole && !hasLink(entry.links[c], l) {
					continue
				}
				if hasLink(entry.links[c], l) {
					n.links[c] = append(n.links[c], l)
				} else {
					n.links[c] = append(n.links[c], &link{bad: "placed in a container by a loop", cond: Bool(true)})
				}
			}
		} else {
			for _, l := range ls {
				if !l.whole {
					n.links[c] = []*link{{bad: "taken from a container in a loop", cond: Bool(true)}}
				}
			}
		}
	}
}

// bindElem is bindRef for the element variable of a range loop.
func (in *Interp) bindElem(f *Frame, x *ast.RangeStmt, xt types.Type, xv, key, v *T, st *State) *T {
	id, ok := x.Value.(*ast.Ident)
	if !ok {
		return v
	}
	o := f.pkg.Info.Defs[id]
	if o == nil {
		o = f.pkg.Info.Uses[id]
	}
	if o == nil || !in.prog.written[o] || !isRefT(o.Type()) || !pureRef(v) {
		return v
	}
	var lv *LV
	if isMapT(xt) {
		c := in.newCell(st, xt, "ranged", xv, false, x.Pos())
		lv = &LV{mapv: &LV{cell: c}, key: key, mtyp: under(xt).(*types.Map)}
		return in.linked(st, o.Type(), v, lv, x.Pos())
	}
	if lv = sliceLV(xv, key); lv == nil {
		e := ast.Unparen(x.X)
		switch e.(type) {
		case *ast.Ident, *ast.SelectorExpr, *ast.IndexExpr:
		default:
			return v
		}
		if hasCalls(e) {
			return v
		}
		in.quietly(func() { lv = in.resolve(f, e, st) })
		lv = lv.with(pe{idx: key})
	}
	return in.linked(st, o.Type(), v, lv, x.Pos())
}
