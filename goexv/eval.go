package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Val is a concrete denotation of a term: int64, bool, string, nil, *SV
// (struct), []Val (sequence), *MV (map), *EV (error), *FV (function),
// *OV (other object).
type Val any

type SV struct {
	typ types.Type
	f   []Val
}

// MV is a map value, never changed once made: later versions share the larger
// part of their entries with it.
type MV struct {
	log *keyLog
	n   int            // how many of the keys in log are its own
	low map[string]Val // entries of older versions
	top map[string]Val // what was put since
}

// keyLog is the storage that versions of a map keep their keys in.
type keyLog struct {
	mu sync.Mutex
	ks []Val
}

func (m *MV) keys() []Val {
	if m.log == nil {
		return nil
	}
	m.log.mu.Lock()
	defer m.log.mu.Unlock()
	return m.log.ks[:m.n:m.n]
}

func (m *MV) get(k string) (Val, bool) {
	if v, ok := m.top[k]; ok {
		return v, true
	}
	v, ok := m.low[k]
	return v, ok
}

func (m *MV) put(k, v Val) *MV {
	ks := vkey(k)
	n := &MV{log: m.log, n: m.n, low: m.low}
	if _, ok := m.get(ks); !ok {
		if n.log == nil {
			n.log = &keyLog{}
		}
		n.log.mu.Lock()
		if len(n.log.ks) == m.n {
			n.log.ks = append(n.log.ks, k)
			n.log.mu.Unlock()
		} else { // another version went on from here
			old := append([]Val{}, n.log.ks[:m.n]...)
			n.log.mu.Unlock()
			n.log = &keyLog{ks: append(old, k)}
		}
		n.n++
	}
	if len(m.top) > 16 && len(m.top)*len(m.top) > len(m.low) {
		n.low = make(map[string]Val, len(m.low)+len(m.top))
		for x, y := range m.low {
			n.low[x] = y
		}
		for x, y := range m.top {
			n.low[x] = y
		}
		n.top = map[string]Val{ks: v}
		return n
	}
	n.top = make(map[string]Val, len(m.top)+1)
	for x, y := range m.top {
		n.top[x] = y
	}
	n.top[ks] = v
	return n
}

func (m *MV) del(k Val) *MV {
	ks := vkey(k)
	if _, ok := m.get(ks); !ok {
		return m
	}
	n := &MV{low: make(map[string]Val, m.n), log: &keyLog{}}
	for _, k := range m.keys() {
		if x := vkey(k); x != ks {
			n.log.ks = append(n.log.ks, k)
			n.n++
			n.low[x], _ = m.get(x)
		}
	}
	return n
}

type EV struct {
	kind string // creation site, sentinel name, "exit" or "fault"
	code int64
	wrap []Val
}

type FV struct {
	name string
	sym  bool // symmetric in its arguments
	term *T
}

type OV struct {
	name string
	attr map[string]Val
}

type PV struct {
	cell int64
	path string
}

func vkey(v Val) string {
	switch x := v.(type) {
	case nil:
		return "n"
	case int64:
		return "i" + strconv.FormatInt(x, 10)
	case bool:
		if x {
			return "t"
		}
		return "f"
	case string:
		return strconv.Quote(x)
	case *SV:
		var sb strings.Builder
		sb.WriteString("{")
		for _, f := range x.f {
			sb.WriteString(vkey(f))
			sb.WriteByte(',')
		}
		sb.WriteString("}")
		return sb.String()
	case []Val:
		var sb strings.Builder
		sb.WriteString("[")
		for _, f := range x {
			sb.WriteString(vkey(f))
			sb.WriteByte(',')
		}
		sb.WriteString("]")
		return sb.String()
	case *MV:
		ks := []string{}
		for _, k := range x.keys() {
			kk := vkey(k)
			v, _ := x.get(kk)
			ks = append(ks, kk+":"+vkey(v))
		}
		sort.Strings(ks)
		return "m(" + strings.Join(ks, ",") + ")"
	case *EV:
		s := "err(" + x.kind + fmt.Sprintf("#%d", x.code)
		for _, w := range x.wrap {
			s += "," + vkey(w)
		}
		return s + ")"
	case *FV:
		return "fn(" + x.name + ")"
	case *OV:
		return "obj(" + x.name + ")"
	case *PV:
		return fmt.Sprintf("ptr(%d%s)", x.cell, x.path)
	case *NV:
		return vkey(Val(x.v))
	}
	return fmt.Sprintf("?%T", v)
}

func veq(a, b Val) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case int64:
		y, ok := b.(int64)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	}
	if b == nil {
		return false
	}
	return vkey(a) == vkey(b)
}

// uncomparable tells whether comparing two dynamic values panics, because it
// reaches a slice or a map.
func uncomparable(a, b Val) bool {
	switch x := a.(type) {
	case *NV:
		y, ok := b.(*NV)
		if !ok || !types.Identical(x.typ, y.typ) {
			return false
		}
		return !types.Comparable(x.typ)
	case *SV:
		y, ok := b.(*SV)
		if !ok || len(x.f) != len(y.f) || x.typ == nil || y.typ == nil || !types.Identical(x.typ, y.typ) {
			return false
		}
		st, ok := under(x.typ).(*types.Struct)
		if !ok || st.NumFields() != len(x.f) {
			return false
		}
		if !types.Comparable(x.typ) {
			return true
		}
		for i := range x.f {
			if uncomparable(x.f[i], y.f[i]) {
				return true
			}
			if !veq(x.f[i], y.f[i]) {
				return false
			}
		}
	}
	return false
}

type evalFail struct{ msg string }

func fail(f string, a ...any) {
	panic(evalFail{fmt.Sprintf(f, a...)})
}

// noResult is raised where the result of an event that did not happen is used.
type noResult struct{ msg string }

// softBool reports a missing result instead of raising it.
func (e *Env) softBool(t *T, b *binding) (v bool, missing *noResult) {
	if !t.res {
		return e.bool(t, b), nil
	}
	defer func() {
		if x := recover(); x != nil {
			r, ok := x.(noResult)
			if !ok {
				panic(x)
			}
			missing = &r
		}
	}()
	return e.bool(t, b), nil
}

// any finds an operand with the value want. The operands are in no
// particular order: one that asks for the result of an event that did not
// happen does not count where another one decides.
func (e *Env) any(ts []*T, b *binding, want bool) (int, bool) {
	var missing *noResult
	for i, t := range ts {
		v, f := e.softBool(t, b)
		if f != nil {
			missing = f
			continue
		}
		if v == want {
			return i, true
		}
	}
	if missing != nil {
		panic(*missing)
	}
	return 0, false
}

type binding struct {
	ids  []int
	vals []Val
	memo map[*T]Val
	up   *binding
	dep  int
}

type foldKey struct {
	base *T
	env  string
}

// Env is one instance on which a summary is evaluated.
type Env struct {
	sym    map[string]Val
	res    map[string]Val
	resFn  func(id int64, comp string, idx []Val) (Val, bool)
	cnfvar func(q string, i, v int64) int64
	root   *binding
	folds  map[string][][]Val
	loopX  map[string][2]int64
	steps  int
	limit  int
	maxIt  int64
	rev    bool // visit map keys in the opposite order
	fnv    func(f *FV, name string, args []Val) Val
}

func NewEnv() *Env {
	return &Env{sym: map[string]Val{}, res: map[string]Val{}, root: &binding{memo: map[*T]Val{}},
		folds: map[string][][]Val{}, loopX: map[string][2]int64{}, limit: 20000000, maxIt: 2000}
}

func (e *Env) lookup(b *binding, id int) (Val, bool) {
	for x := b; x != nil; x = x.up {
		for i, k := range x.ids {
			if k == id {
				return x.vals[i], true
			}
		}
	}
	return nil, false
}

// frameFor finds the innermost binding that t depends on.
func (e *Env) frameFor(t *T, b *binding) *binding {
	if len(t.free) == 0 {
		return e.root
	}
	for x := b; x != nil; x = x.up {
		for _, k := range x.ids {
			if t.hasFree(k) {
				return x
			}
		}
		if x.up == nil {
			return x
		}
	}
	return e.root
}

func bind(up *binding, ids []int, vals []Val) *binding {
	return &binding{ids: ids, vals: vals, memo: map[*T]Val{}, up: up, dep: up.dep + 1}
}

func (e *Env) eval(t *T, b *binding) Val {
	switch t.op {
	case OInt:
		return t.n
	case OBool:
		return t.n == 1
	case OStr:
		return t.k
	case ONil:
		return nil
	}
	fr := e.frameFor(t, b)
	if v, ok := fr.memo[t]; ok {
		return v
	}
	e.steps++
	if e.steps > e.limit {
		fail("evaluation limit exceeded")
	}
	v := e.eval1(t, b)
	fr.memo[t] = v
	return v
}

func (e *Env) int(t *T, b *binding) int64 {
	v := e.eval(t, b)
	n, ok := v.(int64)
	if !ok {
		fail("integer expected, got %s from %s", vkey(v), t)
	}
	return n
}

func (e *Env) bool(t *T, b *binding) bool {
	v := e.eval(t, b)
	n, ok := v.(bool)
	if !ok {
		fail("boolean expected, got %s from %s", vkey(v), t)
	}
	return n
}

func toSeq(v Val) []Val {
	switch x := v.(type) {
	case nil:
		return nil
	case []Val:
		return x
	case string:
		out := make([]Val, len(x))
		for i := range out {
			out[i] = int64(x[i])
		}
		return out
	}
	fail("sequence expected, got %s", vkey(v))
	return nil
}

func toStr(v Val) string {
	switch x := v.(type) {
	case nil:
		return ""
	case string:
		return x
	case []Val:
		var sb strings.Builder
		for _, y := range x {
			switch z := y.(type) {
			case int64:
				sb.WriteByte(byte(z))
			default:
				fail("string expected, got %s", vkey(v))
			}
		}
		return sb.String()
	}
	fail("string expected, got %s", vkey(v))
	return ""
}

func (e *Env) seqInto(t *T, b *binding, out []Val) []Val {
	if t.op != OSeq {
		return append(out, toSeq(e.eval(t, b))...)
	}
	for _, it := range t.a {
		switch it.op {
		case OElem:
			out = append(out, e.eval(it.a[0], b))
		case OSplice:
			more := toSeq(e.eval(it.a[0], b))
			if len(out)+len(more) > seqLimit {
				fail("nontermination: a list grows to %d elements", len(out)+len(more))
			}
			out = append(out, more...)
		case OSIf:
			if e.bool(it.a[0], b) {
				out = e.seqInto(it.a[1], b, out)
			} else {
				out = e.seqInto(it.a[2], b, out)
			}
		case OSFor:
			n := e.int(it.a[0], b)
			if n > maxCount {
				fail("comprehension of length %d", n)
			}
			for i := int64(0); i < n; i++ {
				out = e.seqInto(it.a[1], bind(b, []int{int(it.n)}, []Val{i}), out)
			}
		}
	}
	return out
}

func structField(v Val, i int) Val {
	switch s := v.(type) {
	case *SV:
		if i < len(s.f) {
			return s.f[i]
		}
	case *OV:
		if x, ok := s.attr[fmt.Sprint(i)]; ok {
			return x
		}
	}
	fail("field %d of %s", i, vkey(v))
	return nil
}

func (e *Env) envKey(t *T, b *binding) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d", t.id)
	for _, f := range t.free {
		v, ok := e.lookup(b, f)
		if !ok {
			fail("unbound index in %s", opNames[t.op])
		}
		sb.WriteByte('/')
		sb.WriteString(vkey(v))
	}
	return sb.String()
}

func (e *Env) exitKey(t *T, b *binding) string {
	var sb strings.Builder
	sb.WriteByte('x')
	for _, x := range t.a {
		fmt.Fprintf(&sb, "%d.", x.id)
	}
	for _, f := range t.free {
		v, ok := e.lookup(b, f)
		if !ok {
			fail("unbound index in %s", opNames[t.op])
		}
		sb.WriteByte('/')
		sb.WriteString(vkey(v))
	}
	return sb.String()
}

func (e *Env) loopExit(t *T, b *binding) (int64, int64) {
	key := e.exitKey(t, b)
	if r, ok := e.loopX[key]; ok {
		return r[0], r[1]
	}
	lim := e.iterLimit(t.a, int(t.n))
	for i := int64(0); ; i++ {
		if i > lim {
			fail("nontermination: no exit after %d iterations", i)
		}
		nb := bind(b, []int{int(t.n)}, []Val{i})
		if j, ok := e.any(t.a, nb, true); ok {
			e.loopX[key] = [2]int64{i, int64(j)}
			return i, int64(j)
		}
	}
}

func (e *Env) fold(base *T, k int64, b *binding) []Val {
	if k > maxCount {
		fail("%d iterations", k)
	}
	key := e.envKey(base, b)
	st := e.folds[key]
	n := int(base.n)
	if st == nil {
		init := make([]Val, n)
		for i := range init {
			init[i] = e.eval(base.a[i], b)
		}
		st = [][]Val{init}
	}
	for int64(len(st)) <= k {
		j := int64(len(st) - 1)
		nb := bind(b, base.b, append([]Val{j}, st[j]...))
		next := make([]Val, n)
		for i := range next {
			next[i] = e.eval(base.a[n+i], nb)
		}
		st = append(st, next)
		e.folds[key] = st
	}
	e.folds[key] = st
	return st[k]
}

func (e *Env) eval1(t *T, b *binding) Val {
	switch t.op {
	case OSym:
		v, ok := e.sym[t.k]
		if !ok {
			fail("no value for input %s", t.k)
		}
		return v
	case OBV, OPh:
		v, ok := e.lookup(b, int(t.n))
		if !ok {
			fail("unbound index")
		}
		return v
	case ORes:
		return e.evalRes(t, b)
	case OLin:
		n := t.n
		for i, x := range t.a {
			n += t.c[i] * e.int(x, b)
		}
		return n
	case OMul:
		return e.int(t.a[0], b) * e.int(t.a[1], b)
	case OQuo, ORem:
		x, y := e.int(t.a[0], b), e.int(t.a[1], b)
		if y == 0 {
			fail("division by zero")
		}
		if t.op == OQuo {
			return x / y
		}
		return x % y
	case OBit:
		x, y := e.int(t.a[0], b), e.int(t.a[1], b)
		switch t.k {
		case "&":
			return x & y
		case "|":
			return x | y
		case "^":
			return x ^ y
		case "<<":
			return x << uint(y)
		case ">>":
			return x >> uint(y)
		case "&^":
			return x &^ y
		}
	case OEq:
		x, y := e.eval(t.a[0], b), e.eval(t.a[1], b)
		if uncomparable(x, y) {
			panic(&Stop{"panic", "comparing values that cannot be compared", "", ""})
		}
		return veq(x, y)
	case OLt:
		x, y := e.eval(t.a[0], b), e.eval(t.a[1], b)
		switch a := x.(type) {
		case int64:
			if c, ok := y.(int64); ok {
				return a < c
			}
		case string:
			if c, ok := y.(string); ok {
				return a < c
			}
		}
		fail("comparison of %s and %s", vkey(x), vkey(y))
	case ONot:
		return !e.bool(t.a[0], b)
	case OAnd, OOr:
		stop := t.op == OOr
		if !t.res {
			for _, x := range t.a {
				if e.bool(x, b) == stop {
					return stop
				}
			}
			return !stop
		}
		if _, ok := e.any(t.a, b, stop); ok {
			return stop
		}
		return !stop
	case OIte:
		if e.bool(t.a[0], b) {
			return e.eval(t.a[1], b)
		}
		return e.eval(t.a[2], b)
	case OStruct:
		fs := make([]Val, len(t.a))
		for i, x := range t.a {
			fs[i] = e.eval(x, b)
		}
		return &SV{t.typ, fs}
	case OField:
		return structField(e.eval(t.a[0], b), int(t.n))
	case OSeq:
		r := e.seqInto(t, b, nil)
		if r == nil {
			r = []Val{}
		}
		return r
	case OIdx:
		x := e.eval(t.a[0], b)
		i := e.int(t.a[1], b)
		switch s := x.(type) {
		case []Val:
			if i >= 0 && i < int64(len(s)) {
				return s[i]
			}
			fail("index %d of %d", i, len(s))
		case string:
			if i >= 0 && i < int64(len(s)) {
				return int64(s[i])
			}
			fail("index %d of %d", i, len(s))
		}
		fail("index into %s", vkey(x))
	case OLen:
		switch s := e.eval(t.a[0], b).(type) {
		case nil:
			return int64(0)
		case []Val:
			return int64(len(s))
		case string:
			return int64(len(s))
		case *MV:
			return int64(s.n)
		}
		fail("len of %s", t.a[0])
	case OSlice:
		x := e.eval(t.a[0], b)
		lo, hi := e.int(t.a[1], b), e.int(t.a[2], b)
		switch s := x.(type) {
		case nil:
			if lo == 0 && hi == 0 {
				return nil
			}
		case []Val:
			if lo >= 0 && lo <= hi && hi <= int64(len(s)) {
				return s[lo:hi:hi]
			}
		case string:
			if lo >= 0 && lo <= hi && hi <= int64(len(s)) {
				return s[lo:hi]
			}
		}
		fail("slice [%d:%d] of %s", lo, hi, vkey(x))
	case OSetIdx:
		s := toSeq(e.eval(t.a[0], b))
		i := e.int(t.a[1], b)
		if i < 0 || i >= int64(len(s)) {
			fail("index %d of %d", i, len(s))
		}
		n := append([]Val{}, s...)
		n[i] = e.eval(t.a[2], b)
		return n
	case OMEmpty:
		return &MV{}
	case OPut:
		return e.mapv(t.a[0], b).put(e.eval(t.a[1], b), e.eval(t.a[2], b))
	case ODel:
		return e.mapv(t.a[0], b).del(e.eval(t.a[1], b))
	case OGet:
		m := e.mapv(t.a[0], b)
		if v, ok := m.get(vkey(e.eval(t.a[1], b))); ok {
			return v
		}
		return e.eval(t.a[2], b)
	case OHas:
		m := e.mapv(t.a[0], b)
		_, ok := m.get(vkey(e.eval(t.a[1], b)))
		return ok
	case OKeys:
		m := e.mapv(t.a[0], b)
		ks := append([]Val{}, m.keys()...)
		if e.rev {
			for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
		return ks
	case OPtr:
		s := ""
		for _, x := range t.a {
			if x.op == OPField {
				s += fmt.Sprintf(".%d", x.n)
			} else {
				s += fmt.Sprintf("[%d]", e.int(x.a[0], b))
			}
		}
		return &PV{t.n, s}
	case OFunc:
		return &FV{name: fmt.Sprintf("func%d", t.n), term: t}
	case OErr:
		ev := &EV{kind: t.k}
		for _, x := range t.a {
			if v := e.eval(x, b); v != nil {
				ev.wrap = append(ev.wrap, v)
			}
		}
		return ev
	case OCat:
		var sb strings.Builder
		for _, x := range t.a {
			sb.WriteString(toStr(e.eval(x, b)))
		}
		return sb.String()
	case OTuple:
		fs := make([]Val, len(t.a))
		for i, x := range t.a {
			fs[i] = e.eval(x, b)
		}
		return fs
	case OSum:
		n := e.int(t.a[0], b)
		if n > maxCount {
			fail("sum over %d", n)
		}
		s := int64(0)
		for i := int64(0); i < n; i++ {
			s += e.int(t.a[1], bind(b, []int{int(t.n)}, []Val{i}))
		}
		return s
	case OLoopK:
		k, _ := e.loopExit(t, b)
		return k
	case OLoopX:
		_, x := e.loopExit(t, b)
		return x
	case OFold:
		k := e.int(t.a[0], b)
		return e.fold(t.a[1], k, b)[t.n]
	case OConv:
		v := e.eval(t.a[0], b)
		if t.k == "float" {
			fail("floating point")
		}
		return v
	case OCall:
		return e.call(t, b)
	case OUndef:
		fail("undefined value (%s)", t.k)
	}
	fail("cannot evaluate %s", opNames[t.op])
	return nil
}

func (e *Env) mapv(t *T, b *binding) *MV {
	switch m := e.eval(t, b).(type) {
	case nil:
		return &MV{}
	case *MV:
		return m
	default:
		fail("map expected, got %s", vkey(m))
	}
	return nil
}

func (e *Env) evalRes(t *T, b *binding) Val {
	idx := make([]Val, len(t.a))
	for i, x := range t.a {
		idx[i] = e.eval(x, b)
	}
	if e.resFn != nil {
		if v, ok := e.resFn(t.n, t.k, idx); ok {
			return v
		}
	}
	v, ok := e.res[resKey(t.n, t.k, idx)]
	if !ok {
		panic(noResult{fmt.Sprintf("result %s of event %d not available at %s", t.k, t.n, vkey(idx))})
	}
	return v
}

func resKey(id int64, comp string, idx []Val) string {
	var sb strings.Builder
	sb.WriteString(strconv.FormatInt(id, 10))
	sb.WriteByte('.')
	sb.WriteString(comp)
	for _, x := range idx {
		sb.WriteByte('/')
		sb.WriteString(vkey(x))
	}
	return sb.String()
}

func clauseLits(v Val) []int64 {
	s := toSeq(v)
	out := make([]int64, len(s))
	for i, x := range s {
		n, ok := x.(int64)
		if !ok {
			fail("literal expected, got %s", vkey(x))
		}
		out[i] = n
	}
	return out
}

func errIsV(e, t Val) bool {
	if e == nil || t == nil {
		return e == nil && t == nil
	}
	if veq(e, t) {
		return true
	}
	if x, ok := e.(*EV); ok {
		for _, w := range x.wrap {
			if errIsV(w, t) {
				return true
			}
		}
	}
	return false
}

func findExit(e Val) (*EV, bool) {
	x, ok := e.(*EV)
	if !ok {
		return nil, false
	}
	if x.kind == "exit" {
		return x, true
	}
	for _, w := range x.wrap {
		if r, ok := findExit(w); ok {
			return r, true
		}
	}
	return nil, false
}

func strSeq(ss []string) Val {
	out := make([]Val, len(ss))
	for i, s := range ss {
		out[i] = s
	}
	return out
}

func atoi(s string) (int64, bool) {
	n, err := strconv.Atoi(s)
	return int64(n), err == nil
}

func fmtVal(verb string, v Val) string {
	c := verb[len(verb)-1]
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case int64:
		switch c {
		case 'd', 'v', 'x', 'X', 'o', 'b', 'q', 'c', 'U', 't', 's':
			return fmt.Sprintf(verb, x)
		}
	case string:
		if c == 'w' {
			return x
		}
		return fmt.Sprintf(verb, x)
	case bool:
		return fmt.Sprintf(verb, x)
	}
	return "<" + vkey(v) + ">"
}

// hasTypes holds the types values are asked for, by name.
var hasTypes sync.Map

func (e *Env) call(t *T, b *binding) Val {
	arg := func(i int) Val { return e.eval(t.a[i], b) }
	str := func(i int) string { return toStr(arg(i)) }
	switch t.k {
	case "cnfvar":
		return e.cnfvar(str(0), e.int(t.a[1], b), e.int(t.a[2], b))
	case "max0":
		return max(e.int(t.a[0], b), 0)
	case "max":
		return max(e.int(t.a[0], b), e.int(t.a[1], b))
	case "wrap:i8", "wrap:i16", "wrap:i32", "wrap:u8", "wrap:u16", "wrap:u32", "wrap:u64":
		return wrapN(t.k[5:], e.int(t.a[0], b))
	case "abs":
		n := e.int(t.a[0], b)
		if n < 0 {
			return -n
		}
		return n
	case "maxvar":
		m := int64(0)
		for _, c := range toSeq(arg(0)) {
			for _, l := range clauseLits(c) {
				m = max(m, l, -l)
			}
		}
		return m
	case "itoa":
		return strconv.FormatInt(e.int(t.a[0], b), 10)
	case "atoi":
		n, _ := atoi(str(0))
		return n
	case "atoierr":
		if _, ok := atoi(str(0)); ok {
			return nil
		}
		return &EV{kind: "strconv"}
	case "chr", "rune2str":
		return string(rune(e.int(t.a[0], b)))
	case "seq2str":
		var sb strings.Builder
		for _, x := range toSeq(arg(0)) {
			n := x.(int64)
			if n < 128 {
				sb.WriteByte(byte(n))
			} else {
				sb.WriteRune(rune(n))
			}
		}
		return sb.String()
	case "runes":
		var out []Val
		for _, r := range str(0) {
			out = append(out, int64(r))
		}
		return out
	case "errstr":
		v := arg(0)
		if x, ok := v.(*EV); ok {
			return "<" + x.kind + ">"
		}
		return "<error>"
	case "errors.Is":
		return errIsV(arg(0), arg(1))
	case "errors.Unwrap":
		if x, ok := arg(0).(*EV); ok && len(x.wrap) == 1 {
			return x.wrap[0]
		}
		return nil
	case "errors.As:*os/exec.ExitError":
		_, ok := findExit(arg(0))
		return ok
	case "hastype:*os/exec.ExitError":
		x, ok := arg(0).(*EV)
		return ok && x.kind == "exit"
	case "starterr":
		if x, ok := arg(0).(*EV); ok && x.kind == "exit" {
			return nil
		}
		return arg(0)
	case "exitcode":
		v := arg(0)
		if x, ok := findExit(v); ok {
			return x.code
		}
		if x, ok := v.(*OV); ok {
			if c, ok := x.attr["code"]; ok {
				return c
			}
		}
		fail("exit code of %s", vkey(v))
	case "file.name":
		if x, ok := arg(0).(*OV); ok {
			return x.attr["path"]
		}
		if arg(0) == nil {
			panic(&Stop{"panic", "Name of a nil file", "", ""})
		}
		fail("name of file %s", vkey(arg(0)))
	case "path.Join":
		var ss []string
		for _, x := range toSeq(arg(0)) {
			ss = append(ss, toStr(x))
		}
		return strings.Join(ss, "/")
	case "contains", "index":
		s := toSeq(arg(0))
		x := arg(1)
		for i, y := range s {
			if veq(x, y) {
				if t.k == "index" {
					return int64(i)
				}
				return true
			}
		}
		if t.k == "index" {
			return int64(-1)
		}
		return false
	case "seqeq":
		return veq(Val(append([]Val{}, toSeq(arg(0))...)), Val(append([]Val{}, toSeq(arg(1))...)))
	case "slices.max", "slices.min":
		s := toSeq(arg(0))
		m := s[0].(int64)
		for _, x := range s {
			if t.k == "slices.max" {
				m = max(m, x.(int64))
			} else {
				m = min(m, x.(int64))
			}
		}
		return m
	case "reverse":
		s := toSeq(arg(0))
		out := make([]Val, len(s))
		for i, x := range s {
			out[len(s)-1-i] = x
		}
		return out
	case "sort":
		s := append([]Val{}, toSeq(arg(0))...)
		sort.SliceStable(s, func(i, j int) bool {
			if a, ok := s[i].(int64); ok {
				return a < s[j].(int64)
			}
			return toStr(s[i]) < toStr(s[j])
		})
		return s
	case "sprint", "sprintln":
		var parts []string
		for _, x := range toSeq(arg(0)) {
			parts = append(parts, fmtVal("%v", x))
		}
		if t.k == "sprintln" {
			return strings.Join(parts, " ") + "\n"
		}
		return strings.Join(parts, "")
	case "strings.Join":
		var ss []string
		for _, x := range toSeq(arg(0)) {
			ss = append(ss, toStr(x))
		}
		return strings.Join(ss, str(1))
	case "strings.Repeat":
		return strings.Repeat(str(0), int(e.int(t.a[1], b)))
	case "strings.HasPrefix":
		return strings.HasPrefix(str(0), str(1))
	case "strings.HasSuffix":
		return strings.HasSuffix(str(0), str(1))
	case "strings.Contains":
		return strings.Contains(str(0), str(1))
	case "strings.TrimSpace":
		return strings.TrimSpace(str(0))
	case "strings.Split":
		return strSeq(strings.Split(str(0), str(1)))
	case "strings.SplitAfter":
		return strSeq(strings.SplitAfter(str(0), str(1)))
	case "strings.SplitN":
		return strSeq(strings.SplitN(str(0), str(1), int(e.int(t.a[2], b))))
	case "strings.Fields":
		return strSeq(strings.Fields(str(0)))
	case "strings.TrimPrefix":
		return strings.TrimPrefix(str(0), str(1))
	case "strings.TrimSuffix":
		return strings.TrimSuffix(str(0), str(1))
	case "strings.Trim":
		return strings.Trim(str(0), str(1))
	case "strings.TrimRight":
		return strings.TrimRight(str(0), str(1))
	case "strings.TrimLeft":
		return strings.TrimLeft(str(0), str(1))
	case "strings.Index":
		return int64(strings.Index(str(0), str(1)))
	case "strings.IndexByte":
		return int64(strings.IndexByte(str(0), byte(e.int(t.a[1], b))))
	case "strings.Count":
		return int64(strings.Count(str(0), str(1)))
	case "strings.Compare":
		return int64(strings.Compare(str(0), str(1)))
	case "strings.Equal", "strings.EqualFold":
		if t.k == "strings.EqualFold" {
			return strings.EqualFold(str(0), str(1))
		}
		return str(0) == str(1)
	case "strings.ToLower":
		return strings.ToLower(str(0))
	case "strings.ToUpper":
		return strings.ToUpper(str(0))
	case "strings.ReplaceAll":
		return strings.ReplaceAll(str(0), str(1), str(2))
	case "strings.Clone":
		return str(0)
	case "strings.Cut#0", "strings.Cut#1", "strings.Cut#2":
		x, y, ok := strings.Cut(str(0), str(1))
		switch t.k[len(t.k)-1] {
		case '0':
			return x
		case '1':
			return y
		}
		return ok
	case "strings.CutPrefix#0", "strings.CutPrefix#1":
		x, ok := strings.CutPrefix(str(0), str(1))
		if t.k[len(t.k)-1] == '0' {
			return x
		}
		return ok
	case "infinity":
		fail("nontermination: loop without exit")
	}
	if k, ok := strings.CutPrefix(t.k, "pure:"); ok {
		as := make([]Val, len(t.a))
		for i := range as {
			as[i] = arg(i)
		}
		return pureCall(k[:len(k)-2], as)[k[len(k)-1]-'0']
	}
	if k, ok := strings.CutPrefix(t.k, "errkind:"); ok {
		return errKind(k, arg(0))
	}
	if strings.HasPrefix(t.k, "fmt:") {
		return fmtVal(t.k[4:], arg(0))
	}
	if strings.HasPrefix(t.k, "fn:") {
		f, ok := arg(0).(*FV)
		if !ok {
			fail("call of %s", vkey(arg(0)))
		}
		as := make([]Val, len(t.a)-1)
		for i := range as {
			as[i] = arg(i + 1)
		}
		if e.fnv != nil {
			return e.fnv(f, t.k[3:], as)
		}
		return genName(f, as)
	}
	if name, ok := strings.CutPrefix(t.k, "hastype:"); ok {
		var want types.Type
		if w, ok := hasTypes.Load(name); ok {
			want = w.(types.Type)
		}
		iface := want != nil && isIfaceT(want)
		switch x := arg(0).(type) {
		case nil:
			return false
		case *SV:
			if x.typ != nil && want != nil {
				if iface {
					return types.Implements(x.typ, under(want).(*types.Interface))
				}
				return types.Identical(x.typ, want)
			}
		case *OV:
			// what stands for a caller's own implementation is of none of the
			// types declared in the repository
			if want != nil && !iface {
				return false
			}
		}
	}
	fail("no interpretation of %s", t.k)
	return nil
}

// genName is the injective naming function standing for a caller-supplied
// variable generator.
func genName(f *FV, as []Val) Val {
	var ss []string
	for _, a := range as {
		switch x := a.(type) {
		case string:
			ss = append(ss, strconv.Quote(x))
		default:
			ss = append(ss, vkey(a))
		}
	}
	if f.sym {
		sort.Strings(ss)
	}
	return f.name + "⟨" + strings.Join(ss, ",") + "⟩"
}

// maxCount bounds loops that count towards a fixed bound.
const maxCount = 1 << 20

// seqLimit bounds lists: nothing of polynomial size comes near it on the
// instances that are evaluated.
var seqLimit = 1 << 18

// iterLimit is the number of iterations after which a loop with the given
// exit conditions counts as endless: few when every exit depends on state
// carried around the loop, many when one only depends on the loop index.
func (e *Env) iterLimit(conds []*T, bv int) int64 {
	for _, c := range conds {
		if closedIn(c, bv, map[*T]bool{}) {
			return maxCount
		}
	}
	return e.maxIt
}

func closedIn(t *T, bv int, seen map[*T]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	dep := false
	for _, f := range t.free {
		dep = dep || f == bv
	}
	if !dep {
		return true
	}
	if t.op == OFold {
		return false
	}
	for _, x := range t.a {
		if !closedIn(x, bv, seen) {
			return false
		}
	}
	return true
}
