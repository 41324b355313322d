package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Terms are the summaries' expression language: hash-consed, with binders for
// quantified comprehensions (SFor), sums, loop exits and recurrences.

type Op uint8

const (
	OInt Op = iota
	OBool
	OStr
	ONil
	OSym    // free input, k = name
	OBV     // bound index variable, n = id
	OPh     // loop-carried placeholder, n = id
	ORes    // result comp k of event n, args = enclosing indices
	OLin    // n + sum coef[i]*a[i]
	OMul    // a*b
	OQuo    // a/b
	ORem    // a%b
	OBit    // other binary int op, k = token
	OEq     // a==b
	OLt     // a<b
	ONot    //
	OAnd    //
	OOr     //
	OIte    // c,a,b
	OStruct // typ, fields
	OField  // n = index
	OSeq    // items
	OElem   // item: one element
	OSplice // item: all elements of a sequence
	OSIf    // item: c, seq, seq
	OSFor   // item: bound bv; n, seq
	OIdx    // seq, i
	OLen    // seq
	OSlice  // seq, lo, hi
	OSetIdx // seq, i, v
	OSliceV // slice value stored in heap cell n
	OMapV   // map value stored in heap cell n
	OMEmpty
	OPut  // m,k,v
	ODel  // m,k
	OGet  // m,k,zero
	OHas  // m,k
	OKeys // m: sequence of keys
	OPtr  // n = cell, args = path items
	OPField
	OPIdx
	OFunc  // n = function table index
	OErr   // non-nil error created at site k; args: wrapped errors
	OCat   // string concatenation
	OCall  // uninterpreted/interpreted pure function k
	OTuple //
	OSum   // bound bv; n, body
	OLoopK // bound bv; exit conditions
	OLoopX // bound bv; exit conditions
	OFold  // n = component; args: k, base
	OFoldB // bound bv, phs...; args: inits..., outs...
	OConv  // k = conversion kind
	OUndef
)

var opNames = [...]string{"int", "bool", "str", "nil", "sym", "bv", "ph", "res", "lin", "mul", "quo", "rem", "bit", "eq", "lt", "not", "and", "or", "ite", "struct", "field", "seq", "elem", "splice", "sif", "for", "idx", "len", "slice", "setidx", "slicev", "mapv", "mempty", "put", "del", "get", "has", "keys", "ptr", "pfield", "pidx", "func", "err", "cat", "call", "tuple", "sum", "loopk", "loopx", "fold", "foldb", "conv", "undef"}

type T struct {
	op   Op
	k    string
	n    int64
	a    []*T
	c    []int64 // coefficients for OLin
	b    []int   // bound ids
	typ  types.Type
	id   int
	free []int // sorted free BV/Ph ids
	res  bool  // depends on the result of an event
}

type termTab struct {
	m map[string]*T
	n int
}

var tt = &termTab{m: map[string]*T{}}

func mk(op Op, k string, n int64, typ types.Type, c []int64, b []int, a ...*T) *T {
	var sb strings.Builder
	sb.WriteByte(byte(op) + 1)
	sb.WriteString(k)
	sb.WriteByte(0)
	sb.WriteString(strconv.FormatInt(n, 36))
	for _, x := range a {
		sb.WriteByte(',')
		sb.WriteString(strconv.FormatInt(int64(x.id), 36))
	}
	for _, x := range c {
		sb.WriteByte(';')
		sb.WriteString(strconv.FormatInt(x, 36))
	}
	for _, x := range b {
		sb.WriteByte('!')
		sb.WriteString(strconv.Itoa(x))
	}
	if typ != nil && op == OStruct {
		sb.WriteByte('@')
		sb.WriteString(types.TypeString(typ, nil))
	}
	key := sb.String()
	if t, ok := tt.m[key]; ok {
		return t
	}
	tt.n++
	t := &T{op: op, k: k, n: n, a: a, c: c, b: b, typ: typ, id: tt.n}
	set := map[int]bool{}
	t.res = op == ORes
	for _, x := range a {
		t.res = t.res || x.res
		for _, f := range x.free {
			set[f] = true
		}
	}
	for _, x := range b {
		delete(set, x)
	}
	if op == OBV || op == OPh {
		set[int(n)] = true
	}
	if len(set) > 0 {
		for f := range set {
			t.free = append(t.free, f)
		}
		sort.Ints(t.free)
	}
	tt.m[key] = t
	return t
}

func (t *T) hasFree(id int) bool {
	i := sort.SearchInts(t.free, id)
	return i < len(t.free) && t.free[i] == id
}

func (t *T) hasAny(ids map[int]bool) bool {
	for _, f := range t.free {
		if ids[f] {
			return true
		}
	}
	return false
}

func Int(n int64) *T { return mk(OInt, "", n, nil, nil, nil) }
func Bool(b bool) *T {
	if b {
		return mk(OBool, "", 1, nil, nil, nil)
	}
	return mk(OBool, "", 0, nil, nil, nil)
}
func Str(s string) *T           { return mk(OStr, s, 0, nil, nil, nil) }
func Nil() *T                   { return mk(ONil, "", 0, nil, nil, nil) }
func Sym(k string) *T           { return mk(OSym, k, 0, nil, nil, nil) }
func BV(id int) *T              { return mk(OBV, "", int64(id), nil, nil, nil) }
func Ph(id int) *T              { return mk(OPh, "", int64(id), nil, nil, nil) }
func Call(k string, a ...*T) *T { return mk(OCall, k, 0, nil, nil, nil, a...) }
func Undef(k string) *T         { return mk(OUndef, k, 0, nil, nil, nil) }

func (t *T) isInt() bool  { return t.op == OInt }
func (t *T) isTrue() bool { return t.op == OBool && t.n == 1 }
func (t *T) isFalse() bool {
	return t.op == OBool && t.n == 0
}

// linear arithmetic

func linOf(t *T) (int64, []*T, []int64) {
	switch t.op {
	case OInt:
		return t.n, nil, nil
	case OLin:
		return t.n, t.a, t.c
	}
	return 0, []*T{t}, []int64{1}
}

func mkLin(n int64, m map[*T]int64) *T {
	var ks []*T
	for t, c := range m {
		if c != 0 {
			ks = append(ks, t)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	if len(ks) == 0 {
		return Int(n)
	}
	if len(ks) == 1 && n == 0 && m[ks[0]] == 1 {
		return ks[0]
	}
	cs := make([]int64, len(ks))
	for i, t := range ks {
		cs[i] = m[t]
	}
	return mk(OLin, "", n, nil, cs, nil, ks...)
}

func linComb(a *T, ca int64, b *T, cb int64) *T {
	m := map[*T]int64{}
	n := int64(0)
	add := func(t *T, c int64) {
		k, ts, cs := linOf(t)
		n += k * c
		for i, x := range ts {
			m[x] += cs[i] * c
		}
	}
	add(a, ca)
	if b != nil {
		add(b, cb)
	}
	return mkLin(n, m)
}

func Add(a, b *T) *T { return linComb(a, 1, b, 1) }
func Sub(a, b *T) *T { return linComb(a, 1, b, -1) }
func Neg(a *T) *T {
	return linComb(a, -1, nil, 0)
}
func Mul(a, b *T) *T {
	if a.isInt() {
		return linComb(b, a.n, nil, 0)
	}
	if b.isInt() {
		return linComb(a, b.n, nil, 0)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OMul, "", 0, nil, nil, nil, a, b)
}

// booleans

func Not(a *T) *T {
	switch a.op {
	case OBool:
		return Bool(a.n == 0)
	case ONot:
		return a.a[0]
	}
	return mk(ONot, "", 0, nil, nil, nil, a)
}

func And(as ...*T) *T {
	var out []*T
	seen := map[*T]bool{}
	var add func(x *T) bool
	add = func(x *T) bool {
		if x.isTrue() || seen[x] {
			return true
		}
		if x.isFalse() || seen[Not(x)] {
			return false
		}
		if x.op == OAnd {
			for _, y := range x.a {
				if !add(y) {
					return false
				}
			}
			return true
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range as {
		if !add(x) {
			return Bool(false)
		}
	}
	if len(out) == 0 {
		return Bool(true)
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(OAnd, "", 0, nil, nil, nil, out...)
}

func Or(as ...*T) *T {
	var out []*T
	seen := map[*T]bool{}
	var add func(x *T) bool
	add = func(x *T) bool {
		if x.isFalse() || seen[x] {
			return true
		}
		if x.isTrue() || seen[Not(x)] {
			return false
		}
		if x.op == OOr {
			for _, y := range x.a {
				if !add(y) {
					return false
				}
			}
			return true
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range as {
		if !add(x) {
			return Bool(true)
		}
	}
	if len(out) == 0 {
		return Bool(false)
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(OOr, "", 0, nil, nil, nil, out...)
}

func Ite(c, a, b *T) *T {
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if c.op == ONot {
		return Ite(c.a[0], b, a)
	}
	if a.op == OIte && a.a[0] == c {
		a = a.a[1]
	}
	if b.op == OIte && b.a[0] == c {
		b = b.a[2]
	}
	if a == b {
		return a
	}
	if a.op == OBool && b.op == OBool {
		if a.n == 1 {
			return c
		}
		return Not(c)
	}
	if a.isTrue() {
		return Or(c, b)
	}
	if a.isFalse() {
		return And(Not(c), b)
	}
	if b.isTrue() {
		return Or(Not(c), a)
	}
	if b.isFalse() {
		return And(c, a)
	}
	return mk(OIte, "", 0, nil, nil, nil, c, a, b)
}

func nonNil(t *T) bool {
	switch t.op {
	case OErr, OStruct, OPtr, OFunc, OSliceV, OMapV, OPut, OInt, OStr, OBool:
		return true
	case OIte:
		return nonNil(t.a[1]) && nonNil(t.a[2])
	}
	return false
}

func isConst(t *T) bool {
	return t.op == OInt || t.op == OStr || t.op == OBool || t.op == ONil
}

func Eq(a, b *T) *T {
	if a == b {
		return Bool(true)
	}
	if isConst(b) && !isConst(a) {
	} else if isConst(a) && !isConst(b) {
		a, b = b, a
	} else if a.id > b.id {
		a, b = b, a
	}
	if isConst(a) && isConst(b) {
		return Bool(false) // hash-consed and distinct
	}
	if b.op == ONil && nonNil(a) {
		return Bool(false)
	}
	if b.op == OBool {
		if b.n == 1 {
			return a
		}
		return Not(a)
	}
	if a.op == OBool {
		return Eq(b, a)
	}
	if isConst(b) && a.op == OIte {
		x, y := Eq(a.a[1], b), Eq(a.a[2], b)
		if x.op == OBool || y.op == OBool {
			return Ite(a.a[0], x, y)
		}
	}
	la, lb := a.op == OLin || a.op == OInt, b.op == OLin || b.op == OInt
	if la || lb {
		d := Sub(a, b)
		if d.isInt() {
			return Bool(d.n == 0)
		}
	}
	return mk(OEq, "", 0, nil, nil, nil, a, b)
}

func Lt(a, b *T) *T {
	if a.op == OStr || b.op == OStr {
		if a.op == OStr && b.op == OStr {
			return Bool(a.k < b.k)
		}
		return mk(OLt, "", 0, nil, nil, nil, a, b)
	}
	d := Sub(b, a)
	if d.isInt() {
		return Bool(d.n > 0)
	}
	return mk(OLt, "", 0, nil, nil, nil, a, b)
}
func Le(a, b *T) *T { return Not(Lt(b, a)) }

// aggregates

func Struct(typ types.Type, fs ...*T) *T { return mk(OStruct, "", 0, typ, nil, nil, fs...) }

func Field(x *T, i int) *T {
	switch x.op {
	case OStruct:
		if i < len(x.a) {
			return x.a[i]
		}
	case OIte:
		return Ite(x.a[0], Field(x.a[1], i), Field(x.a[2], i))
	}
	return mk(OField, "", int64(i), nil, nil, nil, x)
}

func Elem(x *T) *T { return mk(OElem, "", 0, nil, nil, nil, x) }

func asSeq(x *T) *T {
	switch x.op {
	case OSeq:
		return x
	case ONil:
		return Seq()
	}
	return Seq(Splice(x))
}
func Splice(x *T) *T { return mk(OSplice, "", 0, nil, nil, nil, x) }

func SIf(c, a, b *T) *T { return mk(OSIf, "", 0, nil, nil, nil, c, asSeq(a), asSeq(b)) }

func SFor(bv int, n, body *T) *T {
	return mk(OSFor, "", int64(bv), nil, nil, []int{bv}, n, asSeq(body))
}

// Seq builds a normalised sequence of items.
func Seq(items ...*T) *T {
	var out []*T
	var add func(x *T)
	add = func(x *T) {
		switch x.op {
		case OSplice:
			y := x.a[0]
			switch y.op {
			case OSeq:
				for _, z := range y.a {
					add(z)
				}
				return
			case ONil:
				return
			case OIte:
				add(SIf(y.a[0], Seq(Splice(y.a[1])), Seq(Splice(y.a[2]))))
				return
			}
		case OSIf:
			if x.a[0].isTrue() || x.a[1] == x.a[2] {
				add(Splice(x.a[1]))
				return
			}
			if x.a[0].isFalse() {
				add(Splice(x.a[2]))
				return
			}
		case OSFor:
			if len(x.a[1].a) == 0 || (x.a[0].isInt() && x.a[0].n <= 0) {
				return
			}
		}
		out = append(out, x)
	}
	for _, x := range items {
		add(x)
	}
	return mk(OSeq, "", 0, nil, nil, nil, out...)
}

func SeqOf(xs ...*T) *T {
	it := make([]*T, len(xs))
	for i, x := range xs {
		it[i] = Elem(x)
	}
	return Seq(it...)
}

func Concat(a, b *T) *T { return Seq(Splice(a), Splice(b)) }

// Replicate is make(n) filled with zero.
var bvCounter = 1 << 20

func freshID() int { bvCounter++; return bvCounter }

func Replicate(n, zero *T) *T {
	if n.isInt() && n.n >= 0 && n.n <= 8 {
		xs := make([]*T, n.n)
		for i := range xs {
			xs[i] = zero
		}
		return SeqOf(xs...)
	}
	return Seq(SFor(1, n, SeqOf(zero))) // body does not use the index
}

func allElems(s *T) bool {
	if s.op != OSeq {
		return false
	}
	for _, x := range s.a {
		if x.op != OElem {
			return false
		}
	}
	return true
}

func Len(x *T) *T {
	switch x.op {
	case ONil:
		return Int(0)
	case OStr:
		return Int(int64(len(x.k)))
	case OSetIdx:
		return Len(x.a[0])
	case OIte:
		return Ite(x.a[0], Len(x.a[1]), Len(x.a[2]))
	case OSeq:
		if len(x.a) == 1 && x.a[0].op == OSplice {
			return Len(x.a[0].a[0])
		}
		s := Int(0)
		for _, it := range x.a {
			switch it.op {
			case OElem:
				s = Add(s, Int(1))
			case OSplice:
				s = Add(s, Len(it.a[0]))
			case OSIf:
				s = Add(s, Ite(it.a[0], Len(it.a[1]), Len(it.a[2])))
			case OSFor:
				l := Len(it.a[1])
				if !l.hasFree(int(it.n)) {
					cnt := it.a[0]
					s = Add(s, Mul(cnt, l))
				} else {
					s = Add(s, mk(OSum, "", it.n, nil, nil, []int{int(it.n)}, it.a[0], l))
				}
			}
		}
		return s
	case OSlice:
		return Sub(x.a[2], x.a[1])
	}
	return mk(OLen, "", 0, nil, nil, nil, x)
}

func Idx(x, i *T) *T {
	switch x.op {
	case OIte:
		return Ite(x.a[0], Idx(x.a[1], i), Idx(x.a[2], i))
	case OSetIdx:
		e := Eq(x.a[1], i)
		if e.isTrue() {
			return x.a[2]
		}
		if e.isFalse() {
			return Idx(x.a[0], i)
		}
	case OSeq:
		if len(x.a) == 1 {
			switch x.a[0].op {
			case OSplice:
				return Idx(x.a[0].a[0], i)
			case OSFor:
				b := x.a[0].a[1]
				if len(b.a) == 1 && b.a[0].op == OElem {
					return subst1(b.a[0].a[0], int(x.a[0].n), i)
				}
			}
		}
		if i.isInt() && i.n >= 0 {
			p := int64(0)
			for _, it := range x.a {
				if it.op != OElem {
					break
				}
				if p == i.n {
					return it.a[0]
				}
				p++
			}
		}
	}
	return mk(OIdx, "", 0, nil, nil, nil, x, i)
}

func SetIdx(x, i, v *T) *T {
	if allElems(x) && i.isInt() && i.n >= 0 && i.n < int64(len(x.a)) {
		xs := append([]*T{}, x.a...)
		xs[i.n] = Elem(v)
		return Seq(xs...)
	}
	if x.op == OSetIdx && x.a[1] == i {
		return SetIdx(x.a[0], i, v)
	}
	return mk(OSetIdx, "", 0, nil, nil, nil, x, i, v)
}

func SliceOf(x, lo, hi *T) *T {
	if lo.isInt() && lo.n == 0 && hi == Len(x) {
		return x
	}
	if lo == hi {
		return Seq()
	}
	if allElems(x) && lo.isInt() && hi.isInt() && lo.n >= 0 && hi.n <= int64(len(x.a)) && lo.n <= hi.n {
		return Seq(x.a[lo.n:hi.n]...)
	}
	return mk(OSlice, "", 0, nil, nil, nil, x, lo, hi)
}

func Cat(as ...*T) *T {
	var out []*T
	var add func(x *T)
	add = func(x *T) {
		if x.op == OCat {
			for _, y := range x.a {
				add(y)
			}
			return
		}
		if x.op == OStr {
			if x.k == "" {
				return
			}
			if len(out) > 0 && out[len(out)-1].op == OStr {
				out[len(out)-1] = Str(out[len(out)-1].k + x.k)
				return
			}
		}
		out = append(out, x)
	}
	for _, x := range as {
		add(x)
	}
	if len(out) == 0 {
		return Str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(OCat, "", 0, nil, nil, nil, out...)
}

func MEmpty() *T        { return mk(OMEmpty, "", 0, nil, nil, nil) }
func Put(m, k, v *T) *T { return mk(OPut, "", 0, nil, nil, nil, m, k, v) }
func Del(m, k *T) *T {
	if m.op == OMEmpty || m.op == ONil {
		return m
	}
	return mk(ODel, "", 0, nil, nil, nil, m, k)
}
func MGet(m, k, zero *T) *T {
	if m.op == OMEmpty || m.op == ONil {
		return zero
	}
	if m.op == OPut {
		e := Eq(m.a[1], k)
		if e.isTrue() {
			return m.a[2]
		}
		if e.isFalse() {
			return MGet(m.a[0], k, zero)
		}
	}
	return mk(OGet, "", 0, nil, nil, nil, m, k, zero)
}
func MHas(m, k *T) *T {
	if m.op == OMEmpty || m.op == ONil {
		return Bool(false)
	}
	if m.op == OPut {
		e := Eq(m.a[1], k)
		if e.isTrue() {
			return Bool(true)
		}
		if e.isFalse() {
			return MHas(m.a[0], k)
		}
	}
	return mk(OHas, "", 0, nil, nil, nil, m, k)
}
func Tuple(a ...*T) *T { return mk(OTuple, "", 0, nil, nil, nil, a...) }

// substitution of BV/Ph ids

func subst1(t *T, id int, v *T) *T { return subst(t, map[int]*T{id: v}) }

func subst(t *T, m map[int]*T) *T {
	memo := map[*T]*T{}
	return substM(t, m, memo)
}

func substM(t *T, m map[int]*T, memo map[*T]*T) *T {
	hit := false
	for _, f := range t.free {
		if _, ok := m[f]; ok {
			hit = true
			break
		}
	}
	if !hit {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *T
	if t.op == OBV || t.op == OPh {
		r = m[int(t.n)]
	} else {
		// avoid capture: bound ids are globally unique except id 1 (never
		// referenced), so no renaming is needed as long as the replacement
		// does not mention them; rename if it does.
		for _, b := range t.b {
			capture := false
			for id, v := range m {
				if t.hasFree(id) && v.hasFree(b) {
					capture = true
				}
			}
			if capture {
				t = renameBound(t, b)
			}
		}
		args := make([]*T, len(t.a))
		mm, me := m, memo
		for _, b := range t.b {
			if _, ok := m[b]; ok {
				mm, me = map[int]*T{}, map[*T]*T{}
				for k, v := range m {
					mm[k] = v
				}
				for _, b := range t.b {
					delete(mm, b)
				}
				break
			}
		}
		for i, x := range t.a {
			args[i] = substM(x, mm, me)
		}
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

func renameBound(t *T, b int) *T {
	nb := freshID()
	isPh := false
	var find func(x *T, seen map[*T]bool)
	find = func(x *T, seen map[*T]bool) {
		if seen[x] || !x.hasFree(b) {
			return
		}
		seen[x] = true
		if x.op == OPh && int(x.n) == b {
			isPh = true
		}
		for _, y := range x.a {
			find(y, seen)
		}
	}
	seen := map[*T]bool{}
	for _, x := range t.a {
		find(x, seen)
	}
	nv := BV(nb)
	if isPh {
		nv = Ph(nb)
	}
	args := make([]*T, len(t.a))
	for i, x := range t.a {
		args[i] = subst1(x, b, nv)
	}
	bs := append([]int{}, t.b...)
	for i := range bs {
		if bs[i] == b {
			bs[i] = nb
		}
	}
	n := t.n
	if t.op == OSFor || t.op == OSum || t.op == OLoopK || t.op == OLoopX {
		n = int64(nb)
	}
	return mk(t.op, t.k, n, t.typ, t.c, bs, args...)
}

func rebuild(t *T, a []*T) *T {
	switch t.op {
	case OLin:
		m := map[*T]int64{}
		n := t.n
		for i, x := range a {
			k, ts, cs := linOf(x)
			n += k * t.c[i]
			for j, y := range ts {
				m[y] += cs[j] * t.c[i]
			}
		}
		return mkLin(n, m)
	case OMul:
		return Mul(a[0], a[1])
	case OEq:
		return Eq(a[0], a[1])
	case OLt:
		return Lt(a[0], a[1])
	case ONot:
		return Not(a[0])
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OField:
		return Field(a[0], int(t.n))
	case OSeq:
		return Seq(a...)
	case OSIf:
		return SIf(a[0], a[1], a[2])
	case OIdx:
		return Idx(a[0], a[1])
	case OLen:
		return Len(a[0])
	case OSlice:
		return SliceOf(a[0], a[1], a[2])
	case OSetIdx:
		return SetIdx(a[0], a[1], a[2])
	case OCat:
		return Cat(a...)
	case OGet:
		return MGet(a[0], a[1], a[2])
	case OHas:
		return MHas(a[0], a[1])
	case ODel:
		return Del(a[0], a[1])
	}
	return mk(t.op, t.k, t.n, t.typ, t.c, t.b, a...)
}

// printing

func (t *T) String() string {
	var sb strings.Builder
	printT(&sb, t, 0)
	s := sb.String()
	if len(s) > 4000 {
		s = s[:4000] + "…"
	}
	return s
}

func printT(sb *strings.Builder, t *T, d int) {
	if d > 14 || sb.Len() > 4000 {
		sb.WriteString("…")
		return
	}
	list := func(as []*T, sep string) {
		for i, x := range as {
			if i > 0 {
				sb.WriteString(sep)
			}
			printT(sb, x, d+1)
		}
	}
	switch t.op {
	case OInt:
		fmt.Fprintf(sb, "%d", t.n)
	case OBool:
		fmt.Fprintf(sb, "%v", t.n == 1)
	case OStr:
		fmt.Fprintf(sb, "%q", t.k)
	case ONil:
		sb.WriteString("nil")
	case OSym:
		sb.WriteString(t.k)
	case OBV:
		fmt.Fprintf(sb, "i%d", t.n)
	case OPh:
		fmt.Fprintf(sb, "ph%d", t.n)
	case ORes:
		fmt.Fprintf(sb, "res%d.%s[", t.n, t.k)
		list(t.a, ",")
		sb.WriteString("]")
	case OLin:
		sb.WriteString("(")
		for i, x := range t.a {
			c := t.c[i]
			switch {
			case c == 1 && i == 0:
			case c == 1:
				sb.WriteString("+")
			case c == -1:
				sb.WriteString("-")
			default:
				fmt.Fprintf(sb, "%+d*", c)
			}
			printT(sb, x, d+1)
		}
		if t.n != 0 {
			fmt.Fprintf(sb, "%+d", t.n)
		}
		sb.WriteString(")")
	case OEq:
		printT(sb, t.a[0], d+1)
		sb.WriteString("==")
		printT(sb, t.a[1], d+1)
	case OLt:
		printT(sb, t.a[0], d+1)
		sb.WriteString("<")
		printT(sb, t.a[1], d+1)
	case ONot:
		sb.WriteString("!(")
		printT(sb, t.a[0], d+1)
		sb.WriteString(")")
	case OAnd, OOr:
		sep := " && "
		if t.op == OOr {
			sep = " || "
		}
		sb.WriteString("(")
		list(t.a, sep)
		sb.WriteString(")")
	case OIte:
		sb.WriteString("(")
		printT(sb, t.a[0], d+1)
		sb.WriteString(" ? ")
		printT(sb, t.a[1], d+1)
		sb.WriteString(" : ")
		printT(sb, t.a[2], d+1)
		sb.WriteString(")")
	case OField:
		printT(sb, t.a[0], d+1)
		fmt.Fprintf(sb, ".%d", t.n)
	case OSeq:
		sb.WriteString("[")
		list(t.a, " ")
		sb.WriteString("]")
	case OElem:
		printT(sb, t.a[0], d+1)
	case OSplice:
		sb.WriteString("*")
		printT(sb, t.a[0], d+1)
	case OSIf:
		sb.WriteString("if ")
		printT(sb, t.a[0], d+1)
		sb.WriteString(" then ")
		printT(sb, t.a[1], d+1)
		sb.WriteString(" else ")
		printT(sb, t.a[2], d+1)
	case OSFor:
		fmt.Fprintf(sb, "for i%d<", t.n)
		printT(sb, t.a[0], d+1)
		sb.WriteString(": ")
		printT(sb, t.a[1], d+1)
	case OIdx:
		printT(sb, t.a[0], d+1)
		sb.WriteString("[")
		printT(sb, t.a[1], d+1)
		sb.WriteString("]")
	case OSliceV, OMapV:
		fmt.Fprintf(sb, "@%d", t.n)
	case OPtr:
		fmt.Fprintf(sb, "&%d", t.n)
		list(t.a, "")
	case OCall:
		sb.WriteString(t.k + "(")
		list(t.a, ",")
		sb.WriteString(")")
	default:
		sb.WriteString(opNames[t.op])
		if t.k != "" {
			sb.WriteString(":" + t.k)
		}
		if t.n != 0 {
			fmt.Fprintf(sb, "#%d", t.n)
		}
		sb.WriteString("(")
		list(t.a, ",")
		sb.WriteString(")")
	}
}
