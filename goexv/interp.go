package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
)

// Item is one entry of a function's effect summary, in program order. Its pc
// is relative to the enclosing loop item (or the function).
type Item struct {
	kind  string // call, check, loop, note
	name  string
	id    int
	pc    []*T
	args  []*T
	bvs   []*T
	pos   token.Pos
	stack []string
	// loops
	bv    int
	k     *T
	conds []*T
	sub   []*Item
	mu    *Summary   // meaning of a recursive call
	heap  map[int]*T // contents of heap cells reachable from pointer args
}

type CellMeta struct {
	typ      types.Type
	name     string
	content  bool // slice or map backing storage
	exactCap bool
	pos      token.Pos
	input    bool
	owner    string
	view     int  // storage this one is a part of
	foreign  bool // part of storage the function does not own
	partial  bool // the view ends before its storage does
	from     *T   // storage the function does not own that this may be
	capped   bool // from has no spare capacity
	off      *T   // where the view starts
	nilable  bool // the slice may be nil, which it then is if it is empty
}

type deferRec struct {
	frame *Frame
	run   func(st *State)
	cond  *T
}

type State struct {
	m      map[int]*T
	pc     []*T
	defers []*deferRec
	dead   bool
	ver    int          // scope version of the context
	clob   map[int]bool // storage overwritten through a view of it
	links  map[int][]*link
}

func (s *State) clobber(o *State) {
	for k := range o.clob {
		if s.clob == nil {
			s.clob = map[int]bool{}
		}
		s.clob[k] = true
	}
}

func (s *State) clone() *State {
	n := &State{m: make(map[int]*T, len(s.m)), pc: append([]*T{}, s.pc...), ver: s.ver, links: s.links}
	for k, v := range s.m {
		n.m[k] = v
	}
	n.defers = append([]*deferRec{}, s.defers...)
	n.clobber(s)
	return n
}

func (s *State) assume(c *T) {
	if c.op == OAnd {
		for _, x := range c.a {
			s.assume(x)
		}
		return
	}
	if !c.isTrue() {
		s.pc = append(s.pc[:len(s.pc):len(s.pc)], c)
	}
	if c.isFalse() {
		s.dead = true
	}
}

type Frame struct {
	name    string
	pkg     *Pkg
	env     map[types.Object]int
	parent  *Frame
	results []int
	sig     *types.Signature
	tparams map[*types.TypeParam]types.Type
}

func (f *Frame) lookup(o types.Object) (int, bool) {
	for g := f; g != nil; g = g.parent {
		if c, ok := g.env[o]; ok {
			return c, true
		}
	}
	return 0, false
}

type FuncVal struct {
	lit   *ast.FuncLit
	frame *Frame
	fn    *types.Func
	recv  *T
	hook  func(args []*T, st *State) []*T
}

type Interp struct {
	prog      *Program
	meta      map[int]*CellMeta
	nextCell  int
	pipes     map[int]*T    // what reads a command's output
	started   map[int]*Item // commands started
	updOwn    bool          // the next index path starts in a cell of its own
	nextEv    int
	trace     *[]*Item
	bvStack   []*T
	stack     []string
	active    map[*types.Func]int
	funcs     []*FuncVal
	fidx      map[string]int
	deadFlows int
	globals   map[types.Object]int
	globalSt  *State
	quiet     int // >0: probing, no notes
	undecided []Note
	litActive map[*ast.FuncLit]int
	published map[int]token.Pos
	stored    map[int]token.Pos
	appended  map[int][]int // base cell -> result cells
	shares    map[int][]int // cells that may have storage in common
	inlineCNF bool
	overrides map[string]func(in *Interp, st *State, recv *T, args []*T, pos token.Pos) []*T
	funcsSeen map[string]bool
	loops     int
	maxDepth  int
	ctxSym    string
	dbg       bool
	cnf       *cnfShape
	mus       map[string]*muRec
	muDepth   int
	muOrig    map[string]*T // inputs of a recursive call, on its first level
	muEv      map[int64]*muRec
	recEv     map[int64]*Item
}

type Note struct {
	pos   token.Pos
	msg   string
	lossy bool // the summary may be wrong, not merely incomplete
}

func NewInterp(p *Program) *Interp {
	in := &Interp{
		prog: p, meta: map[int]*CellMeta{}, active: map[*types.Func]int{},
		fidx: map[string]int{}, globals: map[types.Object]int{},
		published: map[int]token.Pos{}, stored: map[int]token.Pos{},
		appended: map[int][]int{}, shares: map[int][]int{}, funcsSeen: map[string]bool{},
		overrides: map[string]func(*Interp, *State, *T, []*T, token.Pos) []*T{},
		maxDepth:  60,
	}
	in.funcs = append(in.funcs, nil)
	var tr []*Item
	in.trace = &tr
	return in
}

func (in *Interp) note(pos token.Pos, f string, a ...any) {
	if in.quiet > 0 {
		return
	}
	msg := fmt.Sprintf(f, a...)
	for _, n := range in.undecided {
		if n.pos == pos && n.msg == msg {
			return
		}
	}
	in.undecided = append(in.undecided, Note{pos: pos, msg: msg})
}

// lossy records a construct after which the summary may misrepresent the
// function: nothing is decided from it.
func (in *Interp) lossy(pos token.Pos, f string, a ...any) {
	n := len(in.undecided)
	in.note(pos, f, a...)
	if len(in.undecided) > n {
		in.undecided[n].lossy = true
	}
}

func (in *Interp) newCell(st *State, typ types.Type, name string, v *T, content bool, pos token.Pos) int {
	in.nextCell++
	in.meta[in.nextCell] = &CellMeta{typ: typ, name: name, content: content, pos: pos}
	st.m[in.nextCell] = v
	return in.nextCell
}

func (in *Interp) emit(st *State, kind, name string, pos token.Pos, args ...*T) *Item {
	in.nextEv++
	it := &Item{kind: kind, name: name, id: in.nextEv, pc: append([]*T{}, st.pc...), pos: pos,
		args: args, bvs: append([]*T{}, in.bvStack...), stack: append([]string{}, in.stack...)}
	*in.trace = append(*in.trace, it)
	return it
}

func (in *Interp) res(it *Item, comp string) *T {
	return mk(ORes, comp, int64(it.id), nil, nil, nil, it.bvs...)
}

// check records a condition that must hold for the program not to panic.
func (in *Interp) check(st *State, what string, cond *T, pos token.Pos) {
	if cond.isTrue() {
		return
	}
	it := in.emit(st, "check", what, pos, cond)
	_ = it
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isSliceT(t types.Type) bool { _, ok := under(t).(*types.Slice); return ok }
func isMapT(t types.Type) bool   { _, ok := under(t).(*types.Map); return ok }
func isPtrT(t types.Type) bool   { _, ok := under(t).(*types.Pointer); return ok }
func isIfaceT(t types.Type) bool {
	if t == nil {
		return false
	}
	return types.IsInterface(t)
}
func isErrorT(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

func zero(t types.Type) *T {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(false)
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsNumeric != 0:
			return Int(0)
		}
		return Nil()
	case *types.Struct:
		fs := make([]*T, u.NumFields())
		for i := range fs {
			fs[i] = zero(u.Field(i).Type())
		}
		if b := bufField(t); b >= 0 {
			fs[b] = Str("")
		}
		return Struct(t, fs...)
	case *types.Array:
		return Replicate(Int(u.Len()), zero(u.Elem()))
	}
	return Nil()
}

// content returns the pure sequence/map stored in a slice or map value.
func (in *Interp) content(st *State, v *T) *T {
	switch v.op {
	case OSliceV, OMapV:
		if c, ok := st.m[int(v.n)]; ok {
			if st.clob[int(v.n)] {
				in.lossy(in.meta[int(v.n)].pos, "storage is read after a write through a view of it")
			}
			return c
		}
		return Undef("dangling")
	case OIte:
		a, b := in.content(st, v.a[1]), in.content(st, v.a[2])
		return mergeTerm(v.a[0], a, b)
	}
	return v
}

func (in *Interp) newSlice(st *State, typ types.Type, content *T, exact bool, pos token.Pos) *T {
	c := in.newCell(st, typ, "", asSeqOr(content), true, pos)
	in.meta[c].exactCap = exact
	return mk(OSliceV, "", int64(c), nil, nil, nil)
}

func asSeqOr(c *T) *T {
	if c.op == ONil {
		return Seq()
	}
	return c
}

func (in *Interp) newMap(st *State, typ types.Type, content *T, pos token.Pos) *T {
	c := in.newCell(st, typ, "", content, true, pos)
	return mk(OMapV, "", int64(c), nil, nil, nil)
}

// freeze turns a value into a self-contained one (slice and map storage
// replaced by contents) for storing inside aggregates and events.
func (in *Interp) freeze(st *State, v *T, publish bool, pos token.Pos) *T {
	switch v.op {
	case OSliceV, OMapV:
		if publish {
			if _, ok := in.published[int(v.n)]; !ok {
				in.published[int(v.n)] = pos
			}
		}
		return in.freeze(st, in.content(st, v), false, pos)
	case OStruct:
		fs := make([]*T, len(v.a))
		for i, f := range v.a {
			fs[i] = in.freeze(st, f, publish, pos)
		}
		return Struct(v.typ, fs...)
	case OIte:
		return Ite(v.a[0], in.freeze(st, v.a[1], publish, pos), in.freeze(st, v.a[2], publish, pos))
	}
	return v
}

// deepFreeze also resolves pointers into &cell(content) pairs.
func (in *Interp) deepFreeze(st *State, v *T, depth int) *T {
	v = in.freeze(st, v, false, token.NoPos)
	return v
}

// merging

func mergeTerm(c, a, b *T) *T {
	if a == b {
		return a
	}
	if a.op == OStruct && b.op == OStruct && len(a.a) == len(b.a) {
		fs := make([]*T, len(a.a))
		for i := range fs {
			fs[i] = mergeTerm(c, a.a[i], b.a[i])
		}
		return Struct(a.typ, fs...)
	}
	if a.op == OSeq || b.op == OSeq {
		sa, sb := asSeqItems(a), asSeqItems(b)
		p := 0
		for p < len(sa) && p < len(sb) && sa[p] == sb[p] {
			p++
		}
		if p > 0 || (a.op == OSeq && b.op == OSeq) {
			items := append([]*T{}, sa[:p]...)
			items = append(items, SIf(c, Seq(sa[p:]...), Seq(sb[p:]...)))
			return Seq(items...)
		}
	}
	return Ite(c, a, b)
}

func asSeqItems(x *T) []*T {
	switch x.op {
	case OSeq:
		return x.a
	case ONil:
		return nil
	}
	return []*T{Splice(x)}
}

func (in *Interp) mergeVal(c, a, b *T, sa, sb, out *State, typ types.Type) *T {
	if a == b {
		return a
	}
	if a.op == OStruct && b.op == OStruct && len(a.a) == len(b.a) {
		fs := make([]*T, len(a.a))
		st, _ := under(a.typ).(*types.Struct)
		for i := range fs {
			var ft types.Type
			if st != nil && i < st.NumFields() {
				ft = st.Field(i).Type()
			}
			fs[i] = in.mergeVal(c, a.a[i], b.a[i], sa, sb, out, ft)
		}
		return Struct(a.typ, fs...)
	}
	if in.anyLinks(sa, a) || in.anyLinks(sb, b) {
		return Ite(c, a, b)
	}
	if a.op == OSliceV || b.op == OSliceV {
		if (a.op == OSliceV || a.op == ONil || typ == nil || isSliceT(typ)) && (b.op == OSliceV || b.op == ONil || typ == nil || isSliceT(typ)) {
			ca, cb := in.content(sa, a), in.content(sb, b)
			m := mergeTerm(c, asSeqOr(ca), asSeqOr(cb))
			nc := in.newCell(out, typ, "", m, true, token.NoPos)
			in.meta[nc].from, in.meta[nc].capped = in.origin(mk(OIte, "", 0, nil, nil, nil, c, a, b))
			in.meta[nc].nilable = in.mayBeNil(a) || in.mayBeNil(b)
			in.joined(out, nc, c, a, b)
			return mk(OSliceV, "", int64(nc), nil, nil, nil)
		}
	}
	if a.op == OMapV || b.op == OMapV {
		ca, cb := in.content(sa, a), in.content(sb, b)
		nc := in.newCell(out, typ, "", mergeTerm(c, ca, cb), true, token.NoPos)
		in.meta[nc].from, _ = in.origin(mk(OIte, "", 0, nil, nil, nil, c, a, b))
		in.joined(out, nc, c, a, b)
		return mk(OMapV, "", int64(nc), nil, nil, nil)
	}
	return mergeTerm(c, a, b)
}

// mayBeNil tells whether a slice value may be nil although it is not known to.
func (in *Interp) mayBeNil(v *T) bool {
	if v.op == OSliceV {
		m := in.meta[int(v.n)]
		return m != nil && m.nilable
	}
	return !nonNil(v) && v.op != OSeq && v.op != OCat
}

// anyLinks tells whether a reference denotes storage linked to a container.
func (in *Interp) anyLinks(st *State, v *T) bool {
	r := false
	if v.op == OSliceV || v.op == OMapV || v.op == OIte {
		refCells(v, func(c int) {
			for _, l := range st.links[c] {
				r = r || !l.whole
			}
		})
	}
	return r
}

func (in *Interp) merge2(a, b *State) *State {
	p := 0
	for p < len(a.pc) && p < len(b.pc) && a.pc[p] == b.pc[p] {
		p++
	}
	sa, sb := a.pc[p:], b.pc[p:]
	var sel *T
	comp := false
	if len(sa) > 0 && len(sb) > 0 && sa[0] == Not(sb[0]) {
		sel = sa[0]
		comp = len(sa) == 1 && len(sb) == 1
	} else {
		sel = And(sa...)
	}
	out := &State{m: make(map[int]*T, len(a.m)), ver: a.ver}
	if b.ver > out.ver {
		out.ver = b.ver
	}
	out.clobber(a)
	out.clobber(b)
	out.links = mergeLinks(a.links, b.links, sel)
	out.pc = append([]*T{}, a.pc[:p]...)
	if !comp {
		o := Or(And(sa...), And(sb...))
		if !o.isTrue() {
			out.pc = append(out.pc, o)
		}
	}
	for k, v := range a.m {
		out.m[k] = v
	}
	for k, v := range b.m {
		if _, ok := out.m[k]; !ok {
			out.m[k] = v
		}
	}
	for k, va := range a.m {
		vb, ok := b.m[k]
		if !ok || va == vb {
			continue
		}
		out.m[k] = in.mergeVal(sel, va, vb, a, b, out, in.meta[k].typ)
	}
	// defers
	q := 0
	for q < len(a.defers) && q < len(b.defers) && a.defers[q] == b.defers[q] {
		q++
	}
	out.defers = append(out.defers, a.defers[:q]...)
	for _, d := range a.defers[q:] {
		out.defers = append(out.defers, &deferRec{d.frame, d.run, And(d.cond, sel)})
	}
	for _, d := range b.defers[q:] {
		out.defers = append(out.defers, &deferRec{d.frame, d.run, And(d.cond, Not(sel))})
	}
	return out
}

func (in *Interp) merge(sts []*State) *State {
	var live []*State
	for _, s := range sts {
		if s != nil && !s.dead {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		return nil
	}
	acc := live[len(live)-1]
	for i := len(live) - 2; i >= 0; i-- {
		acc = in.merge2(live[i], acc)
	}
	return acc
}

// lvalues

type pe struct {
	field int
	idx   *T
}

type LV struct {
	cell int
	path []pe
	cond *T // conditional lvalue: cond ? a : b
	a, b *LV
	bad  string
	mapv *LV // map element
	key  *T
	mtyp *types.Map
	glob types.Object
	ro   bool // what a store would have to reach is not known
	slot *T   // the map key a store to a map's content is for
}

func (in *Interp) load(st *State, lv *LV) *T {
	if lv.bad != "" {
		return Undef(lv.bad)
	}
	if lv.cond != nil {
		return Ite(lv.cond, in.load(st, lv.a), in.load(st, lv.b))
	}
	v, ok := st.m[lv.cell]
	if !ok {
		return Undef("cell")
	}
	for _, p := range lv.path {
		if p.idx != nil {
			v = Idx(in.content(st, v), p.idx)
		} else {
			v = Field(v, p.field)
		}
	}
	return v
}

func elemType(t types.Type) types.Type {
	switch u := under(t).(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Map:
		return u.Elem()
	}
	return nil
}

func (in *Interp) store(st *State, lv *LV, v *T, pos token.Pos) {
	if lv.bad != "" {
		in.lossy(pos, "store through unresolved location (%s)", lv.bad)
		return
	}
	if lv.ro {
		in.lossy(pos, "store through a pointer to unresolved storage")
		return
	}
	if lv.cond != nil {
		o1, o2 := in.load(st, lv.a), in.load(st, lv.b)
		in.store(st, lv.a, Ite(lv.cond, v, o1), pos)
		in.store(st, lv.b, Ite(lv.cond, o2, v), pos)
		return
	}
	if m := in.meta[lv.cell]; m != nil {
		if m.content {
			if pp, ok := in.published[lv.cell]; ok {
				in.emit(st, "note", "store-after-publish", pos, Str(in.prog.Pos(pp)))
			}
			if _, ok := in.stored[lv.cell]; !ok {
				in.stored[lv.cell] = pos
			}
			if m.view > 0 {
				in.published1(st, m.view, pos)
			}
			if m.foreign && m.from == nil {
				in.emit(st, "note", "store-alias", pos, Int(0))
			}
			if m.from != nil {
				in.emit(st, "note", "store-alias", pos, m.from)
			}
		}
		if m.owner != "" {
			in.emit(st, "note", "write-"+m.owner, pos, Str(m.name))
		}
	}
	base, ok := st.m[lv.cell]
	if !ok {
		in.lossy(pos, "store to unknown cell")
		return
	}
	var typ types.Type
	if m := in.meta[lv.cell]; m != nil {
		typ = m.typ
		if m.content {
			// typ of content cells is the slice type
		}
	}
	if m := in.meta[lv.cell]; m != nil {
		in.updOwn = m.content
	}
	st.m[lv.cell] = in.upd(st, base, typ, lv.path, v, pos)
	in.slotStored(st, lv.cell, lv.path, lv.slot, false, 0)
	for _, p := range lv.path {
		if p.idx != nil {
			in.inserted(st, v, &link{cell: lv.cell, path: lv.path, cond: Bool(true)})
			break
		}
	}
	if len(in.shares[lv.cell]) > 0 {
		in.wrote(st, lv.cell)
	} else if len(st.links[lv.cell]) > 0 {
		in.propagate(st, lv.cell, pos, 0)
	}
}

// origin is the storage a value may denote part of, when the function does
// not own it, and whether it has no spare capacity.
func (in *Interp) origin(v *T) (*T, bool) {
	switch v.op {
	case OSliceV, OMapV:
		if m := in.meta[int(v.n)]; m != nil {
			return m.from, m.capped
		}
	case OSym, OField, OIdx, OGet, ORes, OSlice:
		return v, false
	case OCall:
		if strings.HasPrefix(v.k, "fn:") {
			return v, false
		}
	case OIte:
		a, ca := in.origin(v.a[1])
		b, cb := in.origin(v.a[2])
		if a == nil {
			return b, cb
		}
		if b == nil {
			return a, ca
		}
		return Ite(v.a[0], a, b), ca && cb
	}
	return nil, false
}

// share records that two cells may have storage in common.
func (in *Interp) share(a, b int) {
	in.shares[a] = append(in.shares[a], b)
	in.shares[b] = append(in.shares[b], a)
}

// wrote carries a write to the storage of cell c over to the storage it is a
// view of. Other cells that may share the storage are not known any more.
func (in *Interp) wrote(st *State, c int) {
	known := map[int]bool{c: true}
	for x, i := c, 0; i < 20; i++ {
		m := in.meta[x]
		if m == nil || m.view <= 0 || m.off == nil {
			break
		}
		base, ok := st.m[m.view]
		if !ok || st.clob[x] {
			break
		}
		cur := asSeqOr(st.m[x])
		end := Add(m.off, Len(cur))
		nv := Seq(Splice(SliceOf(base, Int(0), m.off)), Splice(cur), Splice(SliceOf(base, end, Len(base))))
		st.m[m.view] = nv
		x = m.view
		known[x] = true
	}
	for _, x := range sortedKeys(known) {
		in.propagate(st, x, token.NoPos, 0)
	}
	todo := []int{c}
	seen := map[int]bool{c: true}
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		if !known[x] {
			if st.clob == nil {
				st.clob = map[int]bool{}
			}
			st.clob[x] = true
		}
		for _, y := range in.shares[x] {
			if !seen[y] {
				seen[y] = true
				todo = append(todo, y)
			}
		}
	}
}

func (in *Interp) upd(st *State, base *T, typ types.Type, path []pe, v *T, pos token.Pos) *T {
	own := in.updOwn
	in.updOwn = false
	if len(path) == 0 {
		return v
	}
	p := path[0]
	if p.idx != nil {
		if base.op == OSliceV {
			// storage lives in its own cell
			c := int(base.n)
			in.store(st, &LV{cell: c, path: path}, v, pos)
			return base
		}
		switch base.op {
		case OSym, OField, OIdx, OCall, ORes:
			in.emit(st, "note", "store-alias", pos, base)
		case OPh, OFold, OSetIdx, OSlice:
			// a slice carried by a loop, which may be an input's
			if _, sl := under(typ).(*types.Slice); sl && !own {
				in.emit(st, "note", "store-alias", pos, base)
			}
		}
		et := elemType(typ)
		old := Idx(base, p.idx)
		nv := in.upd(st, old, et, path[1:], v, pos)
		nv = in.freeze(st, nv, true, pos)
		return SetIdx(base, p.idx, nv)
	}
	if pt, ok := under(typ).(*types.Pointer); ok && in.boxable(pt) {
		if base.op == OPtr {
			lv := in.ptrLV(st, base, pos)
			lv.path = append(lv.path, path...)
			in.store(st, lv, v, pos)
			return base
		}
		if boxedRef(base) {
			typ = pt.Elem()
		}
	}
	sty, _ := under(typ).(*types.Struct)
	if base.op == OStruct {
		sty, _ = under(base.typ).(*types.Struct)
		typ = base.typ
	}
	if sty == nil {
		in.lossy(pos, "field store into value of unknown structure")
		return base
	}
	fs := make([]*T, sty.NumFields())
	for i := range fs {
		fs[i] = Field(base, i)
	}
	fs[p.field] = in.upd(st, fs[p.field], sty.Field(p.field).Type(), path[1:], v, pos)
	return Struct(typ, fs...)
}

func (in *Interp) ptrLV(st *State, p *T, pos token.Pos) *LV {
	switch p.op {
	case OPtr:
		lv := &LV{cell: int(p.n)}
		for _, x := range p.a {
			if x.op == OPField {
				lv.path = append(lv.path, pe{field: int(x.n)})
			} else {
				lv.path = append(lv.path, pe{idx: x.a[0]})
			}
		}
		return lv
	case OIte:
		// dereferences of nil are checked where they occur
		if p.a[1].op == ONil {
			return in.ptrLV(st, p.a[2], pos)
		}
		if p.a[2].op == ONil {
			return in.ptrLV(st, p.a[1], pos)
		}
		return &LV{cond: p.a[0], a: in.ptrLV(st, p.a[1], pos), b: in.ptrLV(st, p.a[2], pos)}
	}
	return &LV{bad: "pointer " + p.String()}
}

func (in *Interp) addr(lv *LV) *T {
	if lv.bad != "" {
		return Undef(lv.bad)
	}
	if lv.cond != nil {
		return Ite(lv.cond, in.addr(lv.a), in.addr(lv.b))
	}
	var a []*T
	for _, p := range lv.path {
		if p.idx != nil {
			a = append(a, mk(OPIdx, "", 0, nil, nil, nil, p.idx))
		} else {
			a = append(a, mk(OPField, "", int64(p.field), nil, nil, nil))
		}
	}
	return mk(OPtr, "", int64(lv.cell), nil, nil, nil, a...)
}

func (lv *LV) with(p pe) *LV {
	if lv.bad != "" {
		return lv
	}
	if lv.cond != nil {
		return &LV{cond: lv.cond, a: lv.a.with(p), b: lv.b.with(p)}
	}
	if lv.mapv != nil {
		return &LV{bad: "element of a map element"}
	}
	return &LV{cell: lv.cell, ro: lv.ro, path: append(lv.path[:len(lv.path):len(lv.path)], p)}
}

// resolve computes the location denoted by an expression.
func (in *Interp) resolve(f *Frame, e ast.Expr, st *State) *LV {
	info := f.pkg.Info
	switch x := e.(type) {
	case *ast.ParenExpr:
		return in.resolve(f, x.X, st)
	case *ast.Ident:
		o := info.Uses[x]
		if o == nil {
			o = info.Defs[x]
		}
		return in.varLV(f, o, st, x.Pos())
	case *ast.StarExpr:
		p := in.eval(f, x.X, st)
		in.check(st, "nil dereference", Not(Eq(p, Nil())), x.Pos())
		if lv := in.boxedLV(f, x.X, in.typeOf(f, x.X), p, st); lv != nil {
			return lv
		}
		return in.ptrLV(st, p, x.Pos())
	case *ast.SelectorExpr:
		if sel, ok := info.Selections[x]; ok {
			return in.fieldPath(f, x.X, in.typeOf(f, x.X), sel.Index(), st, x.Pos())
		}
		return in.varLV(f, info.Uses[x.Sel], st, x.Pos())
	case *ast.IndexExpr:
		xt := in.typeOf(f, x.X)
		if isMapT(xt) {
			m := in.resolveOrTemp(f, x.X, st)
			k := in.eval(f, x.Index, st)
			return &LV{mapv: m, key: k, mtyp: under(xt).(*types.Map)}
		}
		if isSliceT(xt) {
			v := in.eval(f, x.X, st)
			i := in.eval(f, x.Index, st)
			in.boundsCheck(st, v, i, x.Pos())
			if lv := sliceLV(v, i); lv != nil {
				return lv
			}
			return in.resolveOrTemp(f, x.X, st).with(pe{idx: i})
		}
		var lv *LV
		if isPtrT(xt) {
			lv = in.ptrLV(st, in.eval(f, x.X, st), x.Pos())
		} else {
			lv = in.resolveOrTemp(f, x.X, st)
		}
		i := in.eval(f, x.Index, st)
		in.check(st, "index out of range", And(Not(Lt(i, Int(0))), Lt(i, Len(in.load(st, lv)))), x.Pos())
		return lv.with(pe{idx: i})
	}
	return in.resolveOrTemp(f, e, st)
}

// sliceLV locates an element of a slice with storage of its own.
func sliceLV(v, i *T) *LV {
	switch v.op {
	case OSliceV:
		return &LV{cell: int(v.n), path: []pe{{idx: i}}}
	case OIte:
		if v.a[1].op == ONil {
			return sliceLV(v.a[2], i)
		}
		if v.a[2].op == ONil {
			return sliceLV(v.a[1], i)
		}
		a, b := sliceLV(v.a[1], i), sliceLV(v.a[2], i)
		if a != nil && b != nil {
			return &LV{cond: v.a[0], a: a, b: b}
		}
	}
	return nil
}

func (in *Interp) boundsCheck(st *State, v, i *T, pos token.Pos) {
	in.check(st, "index out of range", And(Not(Lt(i, Int(0))), Lt(i, Len(in.content(st, v)))), pos)
}

func (in *Interp) resolveOrTemp(f *Frame, e ast.Expr, st *State) *LV {
	switch x := e.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr:
		return in.resolve(f, e, st)
	case *ast.ParenExpr:
		return in.resolveOrTemp(f, x.X, st)
	}
	v := in.eval(f, e, st)
	c := in.newCell(st, in.typeOf(f, e), "tmp", v, false, e.Pos())
	return &LV{cell: c}
}

func (in *Interp) fieldPath(f *Frame, xe ast.Expr, xt types.Type, index []int, st *State, pos token.Pos) *LV {
	var lv *LV
	t := xt
	if p, ok := under(t).(*types.Pointer); ok {
		pv := in.eval(f, xe, st)
		in.check(st, "nil dereference", Not(Eq(pv, Nil())), pos)
		if lv = in.boxedLV(f, xe, xt, pv, st); lv == nil {
			lv = in.ptrLV(st, pv, pos)
		}
		t = p.Elem()
	} else {
		lv = in.resolveOrTemp(f, xe, st)
	}
	for _, i := range index {
		if p, ok := under(t).(*types.Pointer); ok {
			pv := in.load(st, lv)
			lv = in.ptrLV(st, pv, pos)
			t = p.Elem()
		}
		sty, ok := under(t).(*types.Struct)
		if !ok || i >= sty.NumFields() {
			return &LV{bad: "field of " + t.String()}
		}
		lv = lv.with(pe{field: i})
		t = sty.Field(i).Type()
	}
	return lv
}

func (in *Interp) varLV(f *Frame, o types.Object, st *State, pos token.Pos) *LV {
	if o == nil {
		return &LV{bad: "unresolved identifier"}
	}
	if c, ok := f.lookup(o); ok {
		if _, ok := st.m[c]; !ok {
			// declared on another path
			return &LV{bad: "undeclared on this path: " + o.Name()}
		}
		return &LV{cell: c}
	}
	if v, ok := o.(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
		return in.globalLV(v, st, pos)
	}
	return &LV{bad: "no storage for " + o.Name()}
}

func (in *Interp) globalLV(v *types.Var, st *State, pos token.Pos) *LV {
	c, ok := in.globals[v]
	if !ok {
		in.nextCell++
		c = in.nextCell
		in.globals[v] = c
		in.meta[c] = &CellMeta{typ: v.Type(), name: v.Pkg().Name() + "." + v.Name(), owner: "global"}
	}
	if _, ok := st.m[c]; !ok {
		st.m[c] = in.globalInit(v, st)
	}
	return &LV{cell: c, glob: v}
}

func (in *Interp) globalInit(v *types.Var, st *State) *T {
	pk := in.prog.Pkgs[v.Pkg().Path()]
	if pk == nil {
		if isErrorT(v.Type()) {
			return mk(OErr, v.Pkg().Path()+"."+v.Name(), 0, nil, nil, nil)
		}
		return Sym("glob:" + v.Pkg().Path() + "." + v.Name())
	}
	for _, file := range pk.Files {
		for _, d := range file.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				for i, n := range vs.Names {
					if pk.Info.Defs[n] != v {
						continue
					}
					if len(vs.Values) == 0 {
						return zero(v.Type())
					}
					if len(vs.Values) != len(vs.Names) {
						return Sym("glob:" + pk.Path + "." + v.Name())
					}
					if isErrorT(v.Type()) {
						return mk(OErr, pk.Path+"."+v.Name(), 0, nil, nil, nil)
					}
					fr := &Frame{name: "init", pkg: pk, env: map[types.Object]int{}}
					sub := st.clone()
					saved := in.trace
					var tr []*Item
					in.trace = &tr
					val := in.eval(fr, vs.Values[i], sub)
					val = in.freeze(sub, val, false, token.NoPos)
					in.trace = saved
					return val
				}
			}
		}
	}
	return zero(v.Type())
}

// expressions

func constTerm(v constant.Value) *T {
	switch v.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(v))
	case constant.String:
		return Str(constant.StringVal(v))
	case constant.Int:
		if n, ok := constant.Int64Val(v); ok {
			return Int(n)
		}
	case constant.Float:
		if n, ok := constant.Int64Val(constant.ToInt(v)); ok {
			return Int(n)
		}
	}
	return Undef("const " + v.String())
}

func (in *Interp) eval(f *Frame, e ast.Expr, st *State) *T {
	info := f.pkg.Info
	if tv, ok := info.Types[e]; ok && tv.Value != nil {
		return constTerm(tv.Value)
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return in.eval(f, x.X, st)
	case *ast.Ident:
		o := info.Uses[x]
		if o == nil {
			o = info.Defs[x]
		}
		switch o := o.(type) {
		case *types.Nil:
			return Nil()
		case *types.Const:
			return constTerm(o.Val())
		case *types.Func:
			return in.funcTerm(&FuncVal{fn: o})
		case *types.Var:
			return in.load(st, in.varLV(f, o, st, x.Pos()))
		}
		return Undef("ident " + x.Name)
	case *ast.BasicLit:
		return Undef("lit")
	case *ast.FuncLit:
		return in.funcTerm(&FuncVal{lit: x, frame: f})
	case *ast.CompositeLit:
		return in.compositeLit(f, x, in.typeOf(f, x), st)
	case *ast.SelectorExpr:
		if sel, ok := info.Selections[x]; ok {
			if sel.Kind() == types.FieldVal {
				xt := in.typeOf(f, x.X)
				if _, isp := under(xt).(*types.Pointer); !isp {
					switch ast.Unparen(x.X).(type) {
					case *ast.CallExpr, *ast.CompositeLit, *ast.TypeAssertExpr:
						v := in.eval(f, x.X, st)
						t := xt
						for _, i := range sel.Index() {
							if p, ok := under(t).(*types.Pointer); ok {
								v = in.load(st, in.ptrLV(st, v, x.Pos()))
								t = p.Elem()
							}
							v = Field(v, i)
							t = under(t).(*types.Struct).Field(i).Type()
						}
						return v
					}
				}
				return in.load(st, in.resolve(f, x, st))
			}
			// method value
			fn := sel.Obj().(*types.Func)
			recv := in.receiver(f, x, sel, st)
			return in.funcTerm(&FuncVal{fn: fn, recv: recv})
		}
		switch o := info.Uses[x.Sel].(type) {
		case *types.Func:
			return in.funcTerm(&FuncVal{fn: o})
		case *types.Var:
			return in.load(st, in.globalLV(o, st, x.Pos()))
		case *types.Const:
			return constTerm(o.Val())
		}
		return Undef("selector")
	case *ast.IndexExpr:
		xt := in.typeOf(f, x.X)
		if _, ok := xt.(*types.Signature); ok { // generic instantiation
			return in.eval(f, x.X, st)
		}
		v := in.eval(f, x.X, st)
		i := in.eval(f, x.Index, st)
		if m, ok := under(xt).(*types.Map); ok {
			r := MGet(in.content(st, v), in.freeze(st, i, false, x.Pos()), zero(m.Elem()))
			if tv, ok := info.Types[e]; ok {
				if tup, ok := tv.Type.(*types.Tuple); ok && tup.Len() == 2 {
					return Tuple(r, MHas(in.content(st, v), i))
				}
			}
			return r
		}
		if isPtrT(xt) {
			v = in.load(st, in.ptrLV(st, v, x.Pos()))
		}
		if b, ok := under(xt).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			in.check(st, "index out of range", And(Not(Lt(i, Int(0))), Lt(i, Len(v))), x.Pos())
			return Idx(v, i)
		}
		in.boundsCheck(st, v, i, x.Pos())
		return Idx(in.content(st, v), i)
	case *ast.IndexListExpr:
		return in.eval(f, x.X, st)
	case *ast.SliceExpr:
		return in.sliceExpr(f, x, st)
	case *ast.StarExpr:
		return in.load(st, in.resolve(f, x, st))
	case *ast.TypeAssertExpr:
		return in.typeAssert(f, x, st)
	case *ast.CallExpr:
		r := in.call(f, x, st)
		if len(r) == 1 {
			return r[0]
		}
		return Tuple(r...)
	case *ast.UnaryExpr:
		return in.unary(f, x, st)
	case *ast.BinaryExpr:
		return in.binary(f, x, st)
	case *ast.KeyValueExpr:
		return in.eval(f, x.Value, st)
	}
	in.note(e.Pos(), "expression %T not understood", e)
	return Undef(fmt.Sprintf("%T", e))
}

func (in *Interp) funcTerm(fv *FuncVal) *T {
	key := ""
	if fv.lit != nil {
		key = fmt.Sprintf("lit%d/%p", fv.lit.Pos(), fv.frame)
	} else if fv.fn != nil {
		key = fv.fn.FullName()
		if fv.recv != nil {
			key += fmt.Sprintf("/%d", fv.recv.id)
		}
	} else {
		key = fmt.Sprintf("hook/%p", fv)
	}
	if i, ok := in.fidx[key]; ok {
		return mk(OFunc, "", int64(i), nil, nil, nil)
	}
	in.funcs = append(in.funcs, fv)
	in.fidx[key] = len(in.funcs) - 1
	return mk(OFunc, "", int64(len(in.funcs)-1), nil, nil, nil)
}

func (in *Interp) compositeLit(f *Frame, x *ast.CompositeLit, t types.Type, st *State) *T {
	elt := func(e ast.Expr, et types.Type) *T {
		if cl, ok := e.(*ast.CompositeLit); ok && cl.Type == nil {
			if p, ok := under(et).(*types.Pointer); ok {
				v := in.compositeLit(f, cl, p.Elem(), st)
				c := in.newCell(st, p.Elem(), "lit", v, false, e.Pos())
				return in.addr(&LV{cell: c})
			}
			return in.compositeLit(f, cl, et, st)
		}
		return in.conv(in.eval(f, e, st), in.typeOf(f, e), et, st)
	}
	switch u := under(t).(type) {
	case *types.Struct:
		fs := make([]*T, u.NumFields())
		for i := range fs {
			fs[i] = zero(u.Field(i).Type())
		}
		for i, e := range x.Elts {
			if kv, ok := e.(*ast.KeyValueExpr); ok {
				name := kv.Key.(*ast.Ident).Name
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == name {
						fs[j] = elt(kv.Value, u.Field(j).Type())
					}
				}
			} else {
				fs[i] = elt(e, u.Field(i).Type())
			}
		}
		return Struct(t, fs...)
	case *types.Slice, *types.Array:
		et := elemType(t)
		seq := Seq()
		keyed := false
		for _, e := range x.Elts {
			if _, ok := e.(*ast.KeyValueExpr); ok {
				keyed = true
			}
		}
		if keyed {
			vals := map[int64]*T{}
			var idx, max int64 = 0, -1
			for _, e := range x.Elts {
				ve := e
				if kv, ok := e.(*ast.KeyValueExpr); ok {
					idx = in.eval(f, kv.Key, st).n
					ve = kv.Value
				}
				vals[idx] = in.freeze(st, elt(ve, et), true, e.Pos())
				if idx > max {
					max = idx
				}
				idx++
			}
			for i := int64(0); i <= max; i++ {
				v := vals[i]
				if v == nil {
					v = zero(et)
				}
				seq = Seq(Splice(seq), Elem(v))
			}
		} else {
			for _, e := range x.Elts {
				seq = Seq(Splice(seq), Elem(in.freeze(st, elt(e, et), true, e.Pos())))
			}
		}
		if a, ok := u.(*types.Array); ok {
			for int64(len(seq.a)) < a.Len() && a.Len() < 64 {
				seq = Seq(Splice(seq), Elem(zero(et)))
			}
			return seq
		}
		return in.newSlice(st, t, seq, true, x.Pos())
	case *types.Map:
		m := MEmpty()
		for _, e := range x.Elts {
			kv := e.(*ast.KeyValueExpr)
			m = Put(m, elt(kv.Key, u.Key()), in.freeze(st, elt(kv.Value, u.Elem()), true, e.Pos()))
		}
		return in.newMap(st, t, m, x.Pos())
	}
	in.note(x.Pos(), "composite literal of %s", t)
	return Undef("composite")
}

// conv adapts a value for assignment to a location of type to.
func (in *Interp) conv(v *T, from, to types.Type, st *State) *T { return v }

func (in *Interp) sliceExpr(f *Frame, x *ast.SliceExpr, st *State) *T {
	xt := in.typeOf(f, x.X)
	v := in.eval(f, x.X, st)
	lo := Int(0)
	if x.Low != nil {
		lo = in.eval(f, x.Low, st)
	}
	isStr := false
	if b, ok := under(xt).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		isStr = true
	}
	if p, ok := under(xt).(*types.Pointer); ok {
		_ = p
		v = in.load(st, in.ptrLV(st, v, x.Pos()))
	}
	c := in.content(st, v)
	n := Len(c)
	hi := n
	if x.High != nil {
		hi = in.eval(f, x.High, st)
	}
	// Slicing beyond len but within cap is legal; the analysis only accepts
	// bounds within len.
	in.check(st, "slice bounds out of range", And(Not(Lt(lo, Int(0))), Not(Lt(hi, lo)), Not(Lt(n, hi))), x.Pos())
	if x.Max != nil {
		in.eval(f, x.Max, st)
	}
	r := SliceOf(c, lo, hi)
	if isStr || isByteLike(c) {
		return r
	}
	if r == c && x.Max == nil {
		return v
	}
	if x.Max == nil && v.op != OSliceV && v.op != ONil {
		return r // still a view of storage we do not own
	}
	nv := in.newSlice(st, xt, r, x.Max != nil, x.Pos())
	m := in.meta[int(nv.n)]
	if v.op == OSliceV {
		m.view, m.off = int(v.n), lo
		in.share(int(v.n), int(nv.n))
		m.foreign = in.meta[int(v.n)].foreign || in.meta[int(v.n)].input
	} else if v.op != ONil {
		m.foreign = true
	}
	m.from, _ = in.origin(v)
	m.capped = x.Max != nil
	m.partial = x.Max == nil && hi != n
	return nv
}

// published1 notes a write to storage that was handed out.
func (in *Interp) published1(st *State, c int, pos token.Pos) {
	for i := 0; c > 0 && i < 20; i++ {
		if pp, ok := in.published[c]; ok {
			in.emit(st, "note", "store-after-publish", pos, Str(in.prog.Pos(pp)))
		}
		m := in.meta[c]
		if m == nil {
			break
		}
		c = m.view
	}
}

// clobbered marks storage, and what it is a view of, as overwritten.
func (in *Interp) clobbered(st *State, c int, pos token.Pos) {
	for i := 0; c > 0 && i < 20; i++ {
		if st.clob == nil {
			st.clob = map[int]bool{}
		}
		st.clob[c] = true
		if pp, ok := in.published[c]; ok {
			in.emit(st, "note", "store-after-publish", pos, Str(in.prog.Pos(pp)))
		}
		m := in.meta[c]
		if m == nil {
			break
		}
		c = m.view
	}
}

func isByteLike(c *T) bool { return c.op == OCall && strings.HasPrefix(c.k, "bytes") }

func (in *Interp) typeAssert(f *Frame, x *ast.TypeAssertExpr, st *State) *T {
	v := in.eval(f, x.X, st)
	t := in.typeOf(f, x.Type)
	commaOK := false
	if tup, ok := in.typeOf(f, x).(*types.Tuple); ok && tup.Len() == 2 {
		commaOK = true
	}
	ok := in.hasType(v, t)
	val := v
	if !ok.isTrue() && !isIfaceT(t) && v.op != OStruct {
		val = mk(OConv, "as:"+types.TypeString(t, nil), 0, nil, nil, nil, v)
	}
	if commaOK {
		return Tuple(val, ok)
	}
	in.check(st, "type assertion", ok, x.Pos())
	return val
}

// hasType is the term deciding whether the dynamic type of v is t.
func (in *Interp) hasType(v *T, t types.Type) *T {
	switch v.op {
	case ONil:
		return Bool(false)
	case OStruct:
		if isIfaceT(t) {
			return Bool(types.Implements(v.typ, under(t).(*types.Interface)))
		}
		return Bool(types.Identical(v.typ, t))
	case OPtr:
		if len(v.a) == 0 {
			pt := types.NewPointer(in.meta[int(v.n)].typ)
			if isIfaceT(t) {
				return Bool(types.Implements(pt, under(t).(*types.Interface)))
			}
			return Bool(types.Identical(pt, t))
		}
	case OIte:
		return Ite(v.a[0], in.hasType(v.a[1], t), in.hasType(v.a[2], t))
	case OErr:
		if isErrorT(t) {
			return Bool(true)
		}
		if v.typ == nil {
			return Bool(false)
		}
	}
	if isErrorT(t) {
		return Not(Eq(v, Nil()))
	}
	hasTypes.Store(types.TypeString(t, nil), t)
	return Call("hastype:"+types.TypeString(t, nil), v)
}

func (in *Interp) unary(f *Frame, x *ast.UnaryExpr, st *State) *T {
	switch x.Op {
	case token.NOT:
		return Not(in.eval(f, x.X, st))
	case token.SUB:
		return Neg(in.eval(f, x.X, st))
	case token.ADD:
		return in.eval(f, x.X, st)
	case token.AND:
		if cl, ok := ast.Unparen(x.X).(*ast.CompositeLit); ok {
			t := in.typeOf(f, cl)
			v := in.compositeLit(f, cl, t, st)
			c := in.newCell(st, t, "lit", v, false, x.Pos())
			return in.addr(&LV{cell: c})
		}
		lv := in.resolve(f, x.X, st)
		return in.addr(lv)
	}
	if x.Op == token.XOR {
		v := Sub(Int(-1), in.eval(f, x.X, st))
		switch k := intKind(in.typeOf(f, x.X)); k {
		case "u8", "u16", "u32":
			return wrapInt(v, k)
		}
		return v
	}
	in.note(x.Pos(), "operator %s", x.Op)
	return Undef("unary")
}

func (in *Interp) binary(f *Frame, x *ast.BinaryExpr, st *State) *T {
	switch x.Op {
	case token.LAND, token.LOR:
		a := in.eval(f, x.X, st)
		if st.dead {
			return a
		}
		g := a
		if x.Op == token.LOR {
			g = Not(a)
		}
		if g.isFalse() {
			return a
		}
		sub := st.clone()
		sub.assume(g)
		b := in.eval(f, x.Y, sub)
		other := st.clone()
		other.assume(Not(g))
		if !sub.dead {
			if other.dead {
				*st = *sub
			} else {
				base := st.pc
				m := in.merge2(sub, other)
				*st = *m
				st.pc = base
			}
		} else {
			*st = *other
		}
		if x.Op == token.LAND {
			return And(a, b)
		}
		return Or(a, b)
	}
	a := in.eval(f, x.X, st)
	b := in.eval(f, x.Y, st)
	return in.binop(f, x.Op, a, b, in.typeOf(f, x.X), in.typeOf(f, x.Y), st, x.Pos())
}

func isStringT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// intKind names the fixed-size integer type of t whose overflow matters: "" for
// int and int64.
func intKind(t types.Type) string {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return ""
	}
	switch b.Kind() {
	case types.Int8:
		return "i8"
	case types.Int16:
		return "i16"
	case types.Int32:
		return "i32"
	case types.Uint8:
		return "u8"
	case types.Uint16:
		return "u16"
	case types.Uint32:
		return "u32"
	case types.Uint, types.Uint64, types.Uintptr:
		return "u64"
	}
	return ""
}

// wrapN is the value n has in an integer type. Negative numbers become very
// large in the 64 bit unsigned types.
func wrapN(kind string, n int64) int64 {
	switch kind {
	case "i8":
		return int64(int8(n))
	case "i16":
		return int64(int16(n))
	case "i32":
		return int64(int32(n))
	case "u8":
		return int64(uint8(n))
	case "u16":
		return int64(uint16(n))
	case "u32":
		return int64(uint32(n))
	case "u64":
		if n < 0 {
			return math.MaxInt64 + n + 1
		}
	}
	return n
}

// wrapInt is the value of v in an integer type.
func wrapInt(v *T, kind string) *T {
	switch {
	case kind == "":
		return v
	case v.isInt():
		return Int(wrapN(kind, v.n))
	case v.op == OCall && v.k == "wrap:"+kind:
		return v
	case v.op == OIte:
		return Ite(v.a[0], wrapInt(v.a[1], kind), wrapInt(v.a[2], kind))
	case v.op == OLen:
		if kind == "u64" || kind == "i32" || kind == "u32" {
			return v
		}
	}
	return Call("wrap:"+kind, v)
}

func (in *Interp) binop(f *Frame, op token.Token, a, b *T, ta, tb types.Type, st *State, pos token.Pos) *T {
	v := in.binop1(f, op, a, b, ta, tb, st, pos)
	switch op {
	case token.ADD, token.SUB, token.MUL, token.SHL:
		t := ta
		if bt, ok := under(ta).(*types.Basic); ok && bt.Info()&types.IsUntyped != 0 {
			t = tb
		}
		switch k := intKind(t); k {
		case "u8", "i8", "u16", "i16":
			return wrapInt(v, k)
		case "u32", "i32":
			if op == token.SHL || op == token.SUB && k == "u32" {
				return wrapInt(v, k)
			}
		case "u64":
			if op == token.SUB {
				return wrapInt(v, k)
			}
		}
	}
	return v
}

func (in *Interp) binop1(f *Frame, op token.Token, a, b *T, ta, tb types.Type, st *State, pos token.Pos) *T {
	switch op {
	case token.ADD:
		if isStringT(ta) {
			return Cat(a, b)
		}
		return Add(a, b)
	case token.SUB:
		return Sub(a, b)
	case token.MUL:
		return Mul(a, b)
	case token.QUO, token.REM:
		in.check(st, "division by zero", Not(Eq(b, Int(0))), pos)
		if a.isInt() && b.isInt() && b.n != 0 {
			if op == token.QUO {
				return Int(a.n / b.n)
			}
			return Int(a.n % b.n)
		}
		if op == token.QUO {
			return mk(OQuo, "", 0, nil, nil, nil, a, b)
		}
		return mk(ORem, "", 0, nil, nil, nil, a, b)
	case token.EQL, token.NEQ:
		var r *T
		if isSliceT(ta) || isMapT(ta) || isSliceT(tb) || isMapT(tb) {
			// comparison with nil only
			v := a
			if v.op == ONil {
				v = b
			}
			switch {
			case v.op == OSliceV && in.mayBeNil(v):
				r = Eq(Len(in.content(st, v)), Int(0))
			case v.op == OSliceV || v.op == OMapV:
				r = Bool(false)
			default:
				r = Eq(v, Nil())
			}
		} else {
			r = Eq(in.freeze(st, a, false, pos), in.freeze(st, b, false, pos))
		}
		if op == token.NEQ {
			return Not(r)
		}
		return r
	case token.LSS:
		return Lt(a, b)
	case token.GTR:
		return Lt(b, a)
	case token.LEQ:
		return Not(Lt(b, a))
	case token.GEQ:
		return Not(Lt(a, b))
	}
	if a.isInt() && b.isInt() {
		switch op {
		case token.AND:
			return Int(a.n & b.n)
		case token.OR:
			return Int(a.n | b.n)
		case token.XOR:
			return Int(a.n ^ b.n)
		case token.SHL:
			return Int(a.n << uint(b.n))
		case token.SHR:
			return Int(a.n >> uint(b.n))
		case token.AND_NOT:
			return Int(a.n &^ b.n)
		}
	}
	return mk(OBit, op.String(), 0, nil, nil, nil, a, b)
}
