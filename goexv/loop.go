package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
)

// exit is one way out of a loop iteration.
type exit struct {
	kind  flowKind
	label string
	st    *State
}

func (in *Interp) execFor(f *Frame, x *ast.ForStmt, st *State, label string) (*State, []Flow) {
	if x.Init != nil {
		n, fl := in.exec(f, x.Init, st, "")
		if n == nil {
			return nil, fl
		}
		st = n
	}
	iter := func(s *State, bv *T) (*State, []exit) {
		var exits []exit
		if x.Cond != nil {
			c := in.eval(f, x.Cond, s)
			if s.dead {
				return nil, nil
			}
			e := s.clone()
			e.assume(Not(c))
			if !e.dead {
				exits = append(exits, exit{fBreak, "", e})
			}
			s.assume(c)
			if s.dead {
				return nil, exits
			}
		}
		n, fl := in.execBlock(f, x.Body.List, s)
		nexts := []*State{}
		for _, y := range fl {
			if y.kind == fContinue && (y.label == "" || y.label == label) {
				nexts = append(nexts, y.st)
				continue
			}
			k := exit{y.kind, y.label, y.st}
			if y.kind == fBreak && y.label == label {
				k.label = ""
			}
			exits = append(exits, k)
		}
		nexts = append(nexts, n)
		nx := in.merge(nexts)
		if nx != nil && x.Post != nil {
			nx, _ = in.exec(f, x.Post, nx, "")
		}
		return nx, exits
	}
	return in.loop(f, st, iter, nil, x.Pos(), label)
}

func (in *Interp) execRange(f *Frame, x *ast.RangeStmt, st *State, label string) (*State, []Flow) {
	xt := in.typeOf(f, x.X)
	var xv *T
	if p, ok := under(xt).(*types.Pointer); ok {
		xv = in.load(st, in.ptrLV(st, in.eval(f, x.X, st), x.Pos()))
		xt = p.Elem()
	} else {
		xv = in.eval(f, x.X, st)
	}
	if st.dead {
		return nil, nil
	}
	var count *T
	var keyAt, valAt func(s *State, i *T) *T
	live := xv
	switch u := under(xt).(type) {
	case *types.Slice, *types.Array:
		c := in.content(st, xv)
		count = Len(c)
		keyAt = func(s *State, i *T) *T { return i }
		valAt = func(s *State, i *T) *T {
			// a slice's elements are read at iteration time
			if live.op == OSliceV {
				return Idx(in.content(s, live), i)
			}
			return Idx(c, i)
		}
	case *types.Map:
		c := in.content(st, xv)
		keys := mk(OKeys, "", 0, nil, nil, nil, c)
		count = Len(keys)
		in.emit(st, "note", "map-range", x.Pos())
		keyAt = func(s *State, i *T) *T { return Idx(keys, i) }
		valAt = func(s *State, i *T) *T { return MGet(in.content(s, live), Idx(keys, i), zero(u.Elem())) }
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			count = Max0(xv)
			keyAt = func(s *State, i *T) *T { return i }
		} else if u.Info()&types.IsString != 0 {
			count = Len(xv)
			keyAt = func(s *State, i *T) *T { return i }
			valAt = func(s *State, i *T) *T { return Idx(xv, i) }
		}
	}
	if sig, ok := under(xt).(*types.Signature); ok {
		return in.rangeFunc(f, x, xv, sig, st, label)
	}
	if count == nil {
		in.lossy(x.Pos(), "range over %s", xt)
		return st, nil
	}
	if n := count; n.op == OInt && n.n > 0 && n.n <= 8 && holdsPtr(xt) {
		return in.unroll(f, x, st, label, int(n.n), func(s *State, i *T) {
			if x.Key != nil {
				in.assign(f, x.Key, keyAt(s, i), s, x.Tok == token.DEFINE)
			}
			if x.Value != nil && valAt != nil {
				in.assign(f, x.Value, in.bindElem(f, x, xt, live, keyAt(s, i), valAt(s, i), s), s, x.Tok == token.DEFINE)
			}
		})
	}
	iter := func(s *State, bv *T) (*State, []exit) {
		var exits []exit
		c := Lt(bv, count)
		e := s.clone()
		e.assume(Not(c))
		exits = append(exits, exit{fBreak, "", e})
		s.assume(c)
		if x.Key != nil {
			in.assign(f, x.Key, keyAt(s, bv), s, x.Tok == token.DEFINE)
		}
		if x.Value != nil && valAt != nil {
			in.assign(f, x.Value, in.bindElem(f, x, xt, live, keyAt(s, bv), valAt(s, bv), s), s, x.Tok == token.DEFINE)
		}
		n, fl := in.execBlock(f, x.Body.List, s)
		nexts := []*State{}
		for _, y := range fl {
			if y.kind == fContinue && (y.label == "" || y.label == label) {
				nexts = append(nexts, y.st)
				continue
			}
			k := exit{y.kind, y.label, y.st}
			if y.kind == fBreak && y.label == label {
				k.label = ""
			}
			exits = append(exits, k)
		}
		nexts = append(nexts, n)
		return in.merge(nexts), exits
	}
	return in.loop(f, st, iter, count, x.Pos(), label)
}

// holdsPtr tells whether a slice or array has elements made of pointers, which
// a loop with a symbolic index could not tell apart.
func holdsPtr(t types.Type) bool {
	var el types.Type
	switch u := under(t).(type) {
	case *types.Slice:
		el = u.Elem()
	case *types.Array:
		el = u.Elem()
	default:
		return false
	}
	if s, ok := under(el).(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if isPtrT(s.Field(i).Type()) {
				return true
			}
		}
	}
	return isPtrT(el)
}

// unroll runs the body of a range loop once for each of its n elements.
func (in *Interp) unroll(f *Frame, x *ast.RangeStmt, st *State, label string, n int, bind func(s *State, i *T)) (*State, []Flow) {
	var out []Flow
	var after []*State
	for i := 0; i < n && st != nil; i++ {
		bind(st, Int(int64(i)))
		if st.dead {
			break
		}
		next, fl := in.execBlock(f, x.Body.List, st)
		nexts := []*State{next}
		for _, y := range fl {
			switch {
			case y.kind == fContinue && (y.label == "" || y.label == label):
				nexts = append(nexts, y.st)
			case y.kind == fBreak && (y.label == "" || y.label == label):
				after = append(after, y.st)
			default:
				out = append(out, y)
			}
		}
		st = in.merge(nexts)
	}
	return in.merge(append(after, st)), out
}

// rangeFunc calls an iterator with the loop body as its argument. The ways out
// of the body are told apart by a number kept beside it.
func (in *Interp) rangeFunc(f *Frame, x *ast.RangeStmt, it *T, sig *types.Signature, st *State, label string) (*State, []Flow) {
	way := in.newCell(st, types.Typ[types.Int], "way", Int(0), false, x.Pos())
	var outs []Flow // ways out, by number-1
	hook := func(args []*T, s *State) []*T {
		if x.Key != nil && len(args) > 0 {
			in.assign(f, x.Key, args[0], s, x.Tok == token.DEFINE)
		}
		if x.Value != nil && len(args) > 1 {
			in.assign(f, x.Value, args[1], s, x.Tok == token.DEFINE)
		}
		pc := append([]*T{}, s.pc...)
		dead0 := in.deadFlows
		n, fl := in.execBlock(f, x.Body.List, s)
		var all []*State
		if n != nil {
			all = append(all, n)
		}
		for _, y := range fl {
			if y.kind == fContinue && (y.label == "" || y.label == label) {
				all = append(all, y.st)
				continue
			}
			if y.kind == fBreak && y.label == label {
				y.label = ""
			}
			k := 0
			for i, o := range outs {
				if o.kind == y.kind && o.label == y.label {
					k = i + 1
				}
			}
			if k == 0 {
				outs = append(outs, Flow{kind: y.kind, label: y.label})
				k = len(outs)
			}
			y.st.m[way] = Int(int64(k))
			all = append(all, y.st)
		}
		m := in.merge(all)
		if m == nil {
			s.dead = true
			return []*T{Undef("dead")}
		}
		if in.deadFlows == dead0 {
			m.pc = pc
		}
		*s = *m
		return []*T{Eq(s.m[way], Int(0))}
	}
	in.callValue(it, "iterator", sig, []*T{in.funcTerm(&FuncVal{hook: hook})}, st, x.Pos())
	if st.dead {
		return nil, nil
	}
	w := st.m[way]
	var next []*State
	var flows []Flow
	n := st.clone()
	n.assume(Eq(w, Int(0)))
	next = append(next, n)
	for i, o := range outs {
		s := st.clone()
		s.assume(Eq(w, Int(int64(i+1))))
		if o.kind == fBreak && o.label == "" {
			next = append(next, s)
			continue
		}
		flows = append(flows, Flow{o.kind, o.label, s})
	}
	return in.merge(next), flows
}

// Max0 is max(t,0), simplified when t is known to be non-negative.
func Max0(t *T) *T {
	switch t.op {
	case OInt:
		if t.n < 0 {
			return Int(0)
		}
		return t
	case OLen:
		return t
	case OSym:
		if t.k == "ctx.dim" {
			return t
		}
	case OCall:
		if t.k == "max0" {
			return t
		}
	case OIte:
		a, b := Max0(t.a[1]), Max0(t.a[2])
		if a == t.a[1] && b == t.a[2] {
			return t
		}
	}
	return Call("max0", t)
}

type comp struct {
	ph   int
	init *T
	out  *T
	pre  *T // value at the start of iteration bv
}

type loopCtx struct {
	in       *Interp
	comps    []*comp
	leaf     func() *T
	unpinned map[string]bool // leaves whose reference is replaced by the body
}

// pinned leaves are references (pointers, slice and map headers) that the
// loop body does not replace, although it may change what they refer to.
func (lc *loopCtx) pinned(v *T, path string) bool {
	switch v.op {
	case OPtr, OFunc, OSliceV, OMapV:
		return !lc.unpinned[path]
	case OIte:
		refs := true
		any := false
		var leaf func(v *T)
		leaf = func(v *T) {
			switch v.op {
			case OIte:
				leaf(v.a[1])
				leaf(v.a[2])
			case OPtr, OSliceV, OMapV:
				any = true
			case ONil:
			default:
				refs = false
			}
		}
		leaf(v)
		return refs && any && !lc.unpinned[path]
	}
	return false
}

// placeholder builds the abstract value a carried location has at the start
// of an arbitrary iteration.
func (lc *loopCtx) placeholder(v *T, typ types.Type, st0, st *State, path string) *T {
	in := lc.in
	if lc.pinned(v, path) {
		return v
	}
	if in.dbg && v.op != OInt {
		fmt.Println("PH", path, v.op, v, typ, st0.pc)
	}
	ph := func(init *T) *T {
		if lc.leaf != nil {
			return lc.leaf()
		}
		c := &comp{ph: freshID(), init: init}
		lc.comps = append(lc.comps, c)
		return Ph(c.ph)
	}
	if v.op == OStruct {
		fs := make([]*T, len(v.a))
		sty, _ := under(v.typ).(*types.Struct)
		for i := range fs {
			var ft types.Type
			if sty != nil {
				ft = sty.Field(i).Type()
			}
			fs[i] = lc.placeholder(v.a[i], ft, st0, st, fmt.Sprintf("%s.%d", path, i))
		}
		return Struct(v.typ, fs...)
	}
	switch u := under(typ).(type) {
	case *types.Slice:
		c := in.newCell(st, typ, "carried", ph(asSeqOr(in.content(st0, v))), true, token.NoPos)
		in.meta[c].from, in.meta[c].capped = in.origin(v)
		in.meta[c].nilable = in.mayBeNil(v) || lc.unpinned["nil "+path]
		return mk(OSliceV, "", int64(c), nil, nil, nil)
	case *types.Map:
		if v.op != ONil {
			c := in.newCell(st, typ, "carried", ph(in.content(st0, v)), true, token.NoPos)
			in.meta[c].from, in.meta[c].capped = in.origin(v)
			return mk(OMapV, "", int64(c), nil, nil, nil)
		}
	case *types.Struct:
		fs := make([]*T, u.NumFields())
		for i := range fs {
			fs[i] = lc.placeholder(Field(v, i), u.Field(i).Type(), st0, st, fmt.Sprintf("%s.%d", path, i))
		}
		return Struct(typ, fs...)
	}
	return ph(v)
}

// outs collects, in the order of placeholder, the values at iteration end.
func (lc *loopCtx) outs(init, v *T, typ types.Type, st *State, path string, grew *bool) []*T {
	in := lc.in
	if lc.pinned(init, path) {
		if v != init {
			lc.unpinned[path] = true
			*grew = true
		}
		return nil
	}
	if init.op == OStruct {
		sty, _ := under(init.typ).(*types.Struct)
		var r []*T
		for i := range init.a {
			var ft types.Type
			if sty != nil {
				ft = sty.Field(i).Type()
			}
			r = append(r, lc.outs(init.a[i], Field(v, i), ft, st, fmt.Sprintf("%s.%d", path, i), grew)...)
		}
		return r
	}
	switch u := under(typ).(type) {
	case *types.Slice:
		if in.mayBeNil(v) && !lc.unpinned["nil "+path] {
			lc.unpinned["nil "+path] = true
			*grew = true
		}
		return []*T{asSeqOr(in.content(st, v))}
	case *types.Map:
		if init.op != ONil {
			return []*T{in.content(st, v)}
		}
	case *types.Struct:
		var r []*T
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, lc.outs(Field(init, i), Field(v, i), u.Field(i).Type(), st, fmt.Sprintf("%s.%d", path, i), grew)...)
		}
		return r
	}
	return []*T{in.freeze(st, v, false, token.NoPos)}
}

func (in *Interp) loop(f *Frame, st *State, iter func(s *State, bv *T) (*State, []exit), count *T, pos token.Pos, label string) (*State, []Flow) {
	in.loops++
	st.refine()
	entry := st
	mod := map[int]bool{}
	savedTrace := in.trace
	savedPub, savedStored := in.published, in.stored
	var bvT *T
	var bv int
	var lc *loopCtx
	var nxt *State
	var exits []exit
	var sub []*Item
	var s0 *State
	unpinned := map[string]bool{}
	run := func(final bool) {
		bv = freshID()
		bvT = BV(bv)
		lc = &loopCtx{in: in, unpinned: unpinned}
		s0 = entry.clone()
		s0.pc = nil
		for _, c := range sortedKeys(mod) {
			m := in.meta[c]
			if m.content {
				ph := &comp{ph: freshID(), init: entry.m[c]}
				lc.comps = append(lc.comps, ph)
				s0.m[c] = Ph(ph.ph)
			} else {
				s0.m[c] = lc.placeholder(entry.m[c], m.typ, entry, s0, fmt.Sprint(c))
			}
		}
		var tr []*Item
		in.trace = &tr
		in.bvStack = append(in.bvStack, bvT)
		s := s0.clone()
		nxt, exits = iter(s, bvT)
		in.bvStack = in.bvStack[:len(in.bvStack)-1]
		sub = tr
		in.trace = savedTrace
	}
	in.quiet++
	for round := 0; round < 40; round++ {
		in.published, in.stored = copyPos(savedPub), copyPos(savedStored)
		und := in.undecided
		run(false)
		in.undecided = und
		grew := false
		if nxt != nil {
			for c := range entry.m {
				if mod[c] {
					continue
				}
				if nxt.m[c] != s0.m[c] {
					mod[c] = true
					grew = true
				}
			}
			for _, c := range sortedKeys(mod) {
				if m := in.meta[c]; !m.content {
					lc.outs(entry.m[c], nxt.m[c], m.typ, nxt, fmt.Sprint(c), &grew)
				}
			}
		}
		if !grew {
			break
		}
	}
	in.quiet--
	in.published, in.stored = copyPos(savedPub), copyPos(savedStored)
	run(true)
	if nxt != nil {
		for _, c := range sortedLinkKeys(nxt.links) {
			if _, isEntry := entry.m[c]; !isEntry {
				continue
			}
			grown := false
			for _, l := range nxt.links[c] {
				if l.whole {
					continue
				}
				grown = grown || !hasLink(s0.links[c], l)
			}
			if _, st := in.stored[c]; st && grown {
				in.lossy(pos, "storage placed in a container and written by a loop")
			}
		}
		for c, ls := range s0.links {
			for _, l := range ls {
				if !hasLink(nxt.links[c], l) {
					if _, st := in.stored[c]; st {
						in.lossy(pos, "storage replaced in a container by a loop")
					}
				}
			}
		}
		for _, c := range sortedKeys(mod) {
			v, ok := nxt.m[c]
			if !ok || in.meta[c].content {
				continue
			}
			refCells(v, func(x int) {
				if _, isEntry := entry.m[x]; !isEntry && in.anyLinks(nxt, v) {
					refCells(s0.m[c], func(y int) {
						if _, st := in.stored[y]; st {
							in.lossy(pos, "storage of an earlier iteration is written")
						}
					})
				}
			})
		}
	}
	// storage that is both published and overwritten by the loop
	for c, sp := range in.stored {
		if _, before := savedStored[c]; before {
			continue
		}
		if pp, ok := in.published[c]; ok {
			if _, isEntry := entry.m[c]; isEntry {
				if _, was := savedPub[c]; !was {
					in.emit(st, "note", "store-after-publish", sp, Str(in.prog.Pos(pp)))
				}
			}
		}
	}
	if nxt == nil && len(exits) == 0 {
		// body always panics
		*in.trace = append(*in.trace, &Item{kind: "loop", pc: append([]*T{}, st.pc...), bv: bv, k: Int(0), conds: []*T{Bool(true)}, sub: sub, pos: pos, bvs: append([]*T{}, in.bvStack...)})
		return nil, nil
	}
	// carried components
	sigma := map[int]*T{}
	if nxt != nil {
		i := 0
		for _, c := range sortedKeys(mod) {
			m := in.meta[c]
			var os []*T
			if m.content {
				os = []*T{nxt.m[c]}
			} else {
				g := false
				os = lc.outs(entry.m[c], nxt.m[c], m.typ, nxt, fmt.Sprint(c), &g)
				if g {
					in.lossy(pos, "loop state did not stabilise")
				}
			}
			for _, o := range os {
				if i < len(lc.comps) {
					lc.comps[i].out = o
				}
				i++
			}
		}
		in.closeLoop(lc, bv, sigma)
	} else {
		for _, c := range lc.comps {
			sigma[c.ph] = c.init
		}
	}
	conds := make([]*T, len(exits))
	for i, e := range exits {
		conds[i] = subst(And(e.st.pc...), sigma)
	}
	var K *T
	if len(conds) == 0 {
		K = Call("infinity")
		in.note(pos, "loop without exit")
	} else {
		K = loopCount(bv, conds)
	}
	item := &Item{kind: "loop", pc: append([]*T{}, st.pc...), bv: bv, k: K, conds: conds, pos: pos,
		sub: substItems(sub, sigma), bvs: append([]*T{}, in.bvStack...), stack: append([]string{}, in.stack...)}
	*in.trace = append(*in.trace, item)
	if len(conds) == 0 {
		return nil, nil
	}
	X := mk(OLoopX, "", int64(bv), nil, nil, []int{bv}, conds...)
	// state after each exit
	sig := map[int]*T{}
	for ph, t := range sigma {
		sig[ph] = subst1(t, bv, K)
	}
	sig[bv] = K
	memo := map[*T]*T{}
	var norms []*State
	var flows []Flow
	for j, e := range exits {
		if e.kind == fReturn {
			e.st.refine()
		}
		n := &State{m: make(map[int]*T, len(e.st.m)), ver: e.st.ver}
		n.clobber(e.st)
		in.carryLinks(entry, e.st, n, pos)
		for c, v := range e.st.m {
			n.m[c] = substM(v, sig, memo)
		}
		n.defers = e.st.defers
		for _, d := range n.defers[min(len(n.defers), len(entry.defers)):] {
			_ = d
			in.lossy(pos, "defer inside a loop")
		}
		n.pc = append([]*T{}, entry.pc...)
		if len(exits) > 1 {
			n.assume(Eq(X, Int(int64(j))))
		}
		if e.kind == fBreak && e.label == "" {
			norms = append(norms, n)
		} else {
			flows = append(flows, Flow{e.kind, e.label, n})
		}
	}
	out := in.merge(norms)
	if out != nil && len(flows) == 0 {
		out.pc = append([]*T{}, entry.pc...)
	}
	return out, flows
}

func copyPos(m map[int]token.Pos) map[int]token.Pos {
	r := make(map[int]token.Pos, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

// closeLoop finds, for each carried component, its value at the start of
// iteration bv: constant step, sum, comprehension, last assignment, or a
// recurrence when no closed form applies.
func (in *Interp) closeLoop(lc *loopCtx, bv int, sigma map[int]*T) {
	open := map[int]*comp{}
	phs := map[int]bool{}
	for _, c := range lc.comps {
		open[c.ph] = c
		phs[c.ph] = true
	}
	for {
		progress := false
		for _, c := range lc.comps {
			if open[c.ph] == nil {
				continue
			}
			o := subst(c.out, sigma)
			self := Ph(c.ph)
			others := map[int]bool{}
			for p := range open {
				others[p] = true
			}
			var pre *T
			switch {
			case o == self:
				pre = c.init
			case !o.hasAny(others):
				if o == c.init && !o.hasFree(bv) {
					pre = c.init
					break
				}
				// last assignment
				pre = Ite(Eq(BV(bv), Int(0)), c.init, subst1(o, bv, Sub(BV(bv), Int(1))))
			default:
				if d := Sub(o, self); !isSeqTerm(o) && !isSeqTerm(c.init) && intLike(o, self) && !d.hasAny(others) {
					if !d.hasFree(bv) {
						pre = Add(c.init, Mul(d, BV(bv)))
					} else {
						j := freshID()
						pre = Add(c.init, mk(OSum, "", int64(j), nil, nil, []int{j}, BV(bv), subst1(d, bv, BV(j))))
					}
				} else if d := condStep(o, self); d != nil && !d.hasAny(others) {
					j := freshID()
					pre = Add(c.init, mk(OSum, "", int64(j), nil, nil, []int{j}, BV(bv), subst1(d, bv, BV(j))))
				} else if rest, ok := appended(o, self); ok && !rest.hasAny(others) {
					j := freshID()
					pre = Seq(Splice(c.init), SFor(j, BV(bv), subst1(rest, bv, BV(j))))
				}
			}
			if pre != nil {
				sigma[c.ph] = pre
				delete(open, c.ph)
				progress = true
			}
		}
		if !progress {
			break
		}
	}
	if len(open) == 0 {
		return
	}
	// recurrence over the remaining components
	var grp []*comp
	for _, c := range lc.comps {
		if open[c.ph] != nil {
			grp = append(grp, c)
		}
	}
	nb := freshID()
	bound := []int{nb}
	var args []*T
	for _, c := range grp {
		bound = append(bound, c.ph)
		args = append(args, c.init)
	}
	for _, c := range grp {
		args = append(args, subst1(subst(c.out, sigma), bv, BV(nb)))
	}
	base := mk(OFoldB, "", int64(len(grp)), nil, nil, bound, args...)
	for i, c := range grp {
		sigma[c.ph] = mk(OFold, "", int64(i), nil, nil, nil, BV(bv), base)
	}
	// components closed earlier never mention open ones, but make sure
	for p, t := range sigma {
		sigma[p] = subst(t, sigma)
	}
}

func isSeqTerm(t *T) bool {
	switch t.op {
	case OSeq, OSetIdx, OSlice, OPut, ODel, OMEmpty:
		return true
	}
	return false
}

// intLike reports whether o is an arithmetic update of self.
func intLike(o, self *T) bool {
	if o.op != OLin {
		return false
	}
	for i, x := range o.a {
		if x == self {
			return o.c[i] == 1
		}
	}
	return false
}

// condStep recognises ite(c, self+d1, self+d2).
func condStep(o, self *T) *T {
	if o == self {
		return Int(0)
	}
	if o.op == OIte {
		a, b := condStep(o.a[1], self), condStep(o.a[2], self)
		if a == nil || b == nil {
			return nil
		}
		return Ite(o.a[0], a, b)
	}
	if intLike(o, self) {
		return Sub(o, self)
	}
	return nil
}

func appended(o, self *T) (*T, bool) {
	if o.op != OSeq || len(o.a) == 0 {
		return nil, false
	}
	if o.a[0].op != OSplice || o.a[0].a[0] != self {
		return nil, false
	}
	return Seq(o.a[1:]...), true
}

// loopCount is the number of completed iterations.
func loopCount(bv int, conds []*T) *T {
	if len(conds) == 1 {
		if k := linearExit(bv, conds[0]); k != nil {
			return k
		}
	}
	return mk(OLoopK, "", int64(bv), nil, nil, []int{bv}, conds...)
}

func linearExit(bv int, c *T) *T {
	var d *T
	strict := false
	switch {
	case c.op == OLt:
		d = Sub(c.a[1], c.a[0]) // exit when d > 0
		strict = true
	case c.op == ONot && c.a[0].op == OLt:
		d = Sub(c.a[0].a[0], c.a[0].a[1]) // exit when d >= 0
	default:
		return nil
	}
	k, ts, cs := linOf(d)
	rest := Int(k)
	var coef int64
	for i, t := range ts {
		if t.op == OBV && int(t.n) == bv {
			coef = cs[i]
			continue
		}
		if t.hasFree(bv) {
			return nil
		}
		rest = Add(rest, Mul(t, Int(cs[i])))
	}
	if coef != 1 {
		return nil
	}
	r := Neg(rest)
	if strict {
		r = Add(r, Int(1))
	}
	return Max0(r)
}

func substItems(items []*Item, m map[int]*T) []*Item {
	out := make([]*Item, len(items))
	memo := map[*T]*T{}
	var conv func(its []*Item, o []*Item)
	list := func(ts []*T) []*T {
		r := make([]*T, len(ts))
		for i, t := range ts {
			r[i] = substM(t, m, memo)
		}
		return r
	}
	conv = func(its []*Item, o []*Item) {
		for i, it := range its {
			n := *it
			n.pc = list(it.pc)
			n.args = list(it.args)
			n.conds = list(it.conds)
			if it.k != nil {
				n.k = substM(it.k, m, memo)
			}
			if it.heap != nil {
				n.heap = map[int]*T{}
				for c, t := range it.heap {
					n.heap[c] = substM(t, m, memo)
				}
			}
			if it.sub != nil {
				n.sub = make([]*Item, len(it.sub))
				conv(it.sub, n.sub)
			}
			o[i] = &n
		}
	}
	conv(items, out)
	return out
}

func sortedKeys(m map[int]bool) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	for i := 1; i < len(r); i++ {
		for j := i; j > 0 && r[j-1] > r[j]; j-- {
			r[j-1], r[j] = r[j], r[j-1]
		}
	}
	return r
}

var _ = ast.NewIdent

// facts is a set of assumptions closed under unit propagation.
type facts struct {
	known map[*T]bool
	open  []*T // disjunctions not yet satisfied
	bad   bool
}

func (fs *facts) add(c *T) {
	switch {
	case fs.bad || c.isTrue() || fs.known[c]:
		return
	case c.isFalse() || fs.known[Not(c)]:
		fs.bad = true
		return
	}
	switch c.op {
	case OAnd:
		for _, x := range c.a {
			fs.add(x)
		}
		return
	case ONot:
		if c.a[0].op == OOr {
			for _, x := range c.a[0].a {
				fs.add(Not(x))
			}
			return
		}
	}
	fs.known[c] = true
	if c.op == OOr || c.op == ONot && c.a[0].op == OAnd {
		fs.open = append(fs.open, c)
	}
	for again := true; again && !fs.bad; {
		again = false
		for i, d := range fs.open {
			var lits []*T
			if d.op == OOr {
				lits = d.a
			} else {
				for _, x := range d.a[0].a {
					lits = append(lits, Not(x))
				}
			}
			var rest []*T
			sat := false
			for _, l := range lits {
				switch fs.value(l) {
				case 1:
					sat = true
				case 0:
					rest = append(rest, l)
				}
			}
			if sat {
				continue
			}
			if len(rest) == 0 {
				fs.bad = true
				return
			}
			if len(rest) == 1 {
				fs.open = append(append([]*T{}, fs.open[:i]...), fs.open[i+1:]...)
				fs.add(rest[0])
				again = true
				break
			}
		}
	}
}

// value is 1 if c follows, -1 if its negation does, 0 otherwise.
func (fs *facts) value(c *T) int {
	switch {
	case c.isTrue() || fs.known[c]:
		return 1
	case c.isFalse() || fs.known[Not(c)]:
		return -1
	}
	switch c.op {
	case ONot:
		return -fs.value(c.a[0])
	case OAnd:
		r := 1
		for _, x := range c.a {
			if v := fs.value(x); v < r {
				r = v
			}
		}
		return r
	case OOr:
		r := -1
		for _, x := range c.a {
			if v := fs.value(x); v > r {
				r = v
			}
		}
		return r
	}
	return 0
}

func (fs *facts) with(c *T) *facts {
	n := &facts{known: make(map[*T]bool, len(fs.known)+1), open: append([]*T{}, fs.open...), bad: fs.bad}
	for k := range fs.known {
		n.known[k] = true
	}
	n.add(c)
	return n
}

func (fs *facts) fix(v *T, depth int) *T {
	switch v.op {
	case OIte:
		switch fs.value(v.a[0]) {
		case 1:
			return fs.fix(v.a[1], depth)
		case -1:
			return fs.fix(v.a[2], depth)
		}
		if depth > 12 {
			return v
		}
		yes, no := fs.with(v.a[0]), fs.with(Not(v.a[0]))
		switch {
		case yes.bad:
			return no.fix(v.a[2], depth+1)
		case no.bad:
			return yes.fix(v.a[1], depth+1)
		}
		return Ite(v.a[0], yes.fix(v.a[1], depth+1), no.fix(v.a[2], depth+1))
	case OStruct:
		xs := make([]*T, len(v.a))
		same := true
		for i, x := range v.a {
			xs[i] = fs.fix(x, depth)
			same = same && xs[i] == x
		}
		if same {
			return v
		}
		return Struct(v.typ, xs...)
	}
	return v
}

// refine resolves case distinctions in stored values that the path condition
// already decides.
func (s *State) refine() {
	if len(s.pc) == 0 {
		return
	}
	var fs *facts
	for c, v := range s.m {
		if v.op == OIte || v.op == OStruct {
			if fs == nil {
				fs = &facts{known: map[*T]bool{}}
				for _, p := range s.pc {
					fs.add(p)
				}
			}
			s.m[c] = fs.fix(v, 0)
		}
	}
}
