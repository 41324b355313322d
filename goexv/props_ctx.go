package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// Properties of the context, decided on the transfer functions extracted from
// its source: every sequence of operations up to a length, and long
// pseudo-random ones, is composed from them and compared with a reference
// automaton.

type ctxCall struct {
	op   string
	args []Val
}

func (c ctxCall) String() string {
	var s []string
	for _, a := range c.args {
		s = append(s, strings.Trim(vkey(a), "i"))
	}
	return c.op + "(" + strings.Join(s, ",") + ")"
}

func callsStr(cs []ctxCall) string {
	if len(cs) > 12 {
		return fmt.Sprintf("... %s", callsStr(cs[len(cs)-12:]))
	}
	var s []string
	for _, c := range cs {
		s = append(s, c.String())
	}
	return strings.Join(s, "; ")
}

type ctxRun struct {
	a   *Analyzer
	r   *Report
	cs  *CtxSums
	m   *Machine
	c   *RealCtx
	seq []ctxCall
}

func (a *Analyzer) newCtxRun(r *Report, cs *CtxSums) *ctxRun {
	return &ctxRun{a: a, r: r, cs: cs, m: NewMachine(a, 2, nil), c: NewRealCtx(cs)}
}

func (x *ctxRun) clone() *ctxRun {
	y := *x
	y.c = x.c.clone()
	y.seq = append([]ctxCall{}, x.seq...)
	return &y
}

func (x *ctxRun) bad(rule, op, f string, a ...any) {
	s := x.cs.methods[op]
	x.r.bad(rule, s.name, s.pos, fmt.Sprintf(f, a...)+" (after "+callsStr(x.seq)+")")
}

// do performs an operation; ok is false if it could not be decided.
func (x *ctxRun) do(op string, args ...Val) (res []Val, ok bool) {
	x.seq = append(x.seq, ctxCall{op, args})
	res, stop := x.c.op(x.m, op, args...)
	if stop != nil {
		x.r.stop("context", x.cs.methods[op].name, stop, callsStr(x.seq))
		return nil, false
	}
	return res, true
}

// ask performs an operation on a copy, leaving the state as it was.
func (x *ctxRun) ask(op string, args ...Val) (res []Val, ok bool) {
	y := x.clone()
	return y.do(op, args...)
}

// P18

type numSpec struct {
	num   map[triple]int64
	floor int64
}

func (s *numSpec) clone() *numSpec {
	n := &numSpec{map[triple]int64{}, s.floor}
	for k, v := range s.num {
		n.num[k] = v
	}
	return n
}

// numStep performs one operation and checks the answer. False: stop here.
func (x *ctxRun) numStep(s *numSpec, c ctxCall) bool {
	defer x.r.ok("numbering", 1)
	switch c.op {
	case "CNFVar", "CNFVarExists":
		k := triple{toStr(c.args[0]), c.args[1].(int64), c.args[2].(int64)}
		old, known := s.num[k]
		res, ok := x.do(c.op, c.args...)
		if !ok {
			return false
		}
		if c.op == "CNFVarExists" {
			if res[0] != known {
				x.bad("exists", c.op, "reports %v for a triple that was requested: %v", res[0], known)
				return false
			}
			return true
		}
		n, isN := res[0].(int64)
		switch {
		case !isN:
			x.r.undecided("CNFVar: result " + vkey(res[0]))
			return false
		case n <= 0:
			x.bad("positive", c.op, "number %d", n)
			return false
		case known && n != old:
			x.bad("stable", c.op, "number %d for a triple that has number %d", n, old)
			return false
		case !known && n <= s.floor:
			x.bad("above all", c.op, "new number %d is not larger than %d, assigned or reserved before", n, s.floor)
			return false
		}
		s.num[k] = n
		if n > s.floor {
			s.floor = n
		}
		return true
	case "UpdateTopV":
		v := c.args[0].(int64)
		before, ok := x.ask("TopV")
		if !ok {
			return false
		}
		old := before[0].(int64)
		res, ok := x.do(c.op, c.args...)
		if !ok {
			return false
		}
		after, ok := x.ask("TopV")
		if !ok {
			return false
		}
		now := after[0].(int64)
		if now < old {
			x.bad("never lowered", c.op, "the reserved maximum falls from %d to %d", old, now)
			return false
		}
		if v >= old && now < v {
			x.bad("raised", c.op, "the reserved maximum is %d after raising it to %d", now, v)
			return false
		}
		if v > old && res[0] != true || v < old && res[0] != false {
			x.bad("raise reported", c.op, "returns %v when the maximum is raised from %d to %d", res[0], old, v)
			return false
		}
		if v > s.floor {
			s.floor = v
		}
		return true
	case "TopV":
		res, ok := x.do(c.op)
		if !ok {
			return false
		}
		if n, _ := res[0].(int64); n < s.floor {
			x.bad("top", c.op, "reports %d though %d is assigned or reserved", n, s.floor)
			return false
		}
		return true
	case "Reset":
		_, ok := x.do(c.op)
		*s = numSpec{num: map[triple]int64{}}
		return ok
	}
	_, ok := x.do(c.op, c.args...)
	return ok
}

func cnfCalls(op string, ts ...triple) []ctxCall {
	var out []ctxCall
	for _, t := range ts {
		out = append(out, ctxCall{op, []Val{t.q, t.i, t.v}})
	}
	return out
}

func someVal(vs ...int64) Val {
	out := make([]Val, len(vs))
	for i, v := range vs {
		out[i] = v
	}
	return out
}

// triples that naive keys confuse
var hardTriples = []triple{
	{"x", 1, 11}, {"x", 11, 1}, {"x1", 1, 1}, {"x", 1, 1}, {"x", 0, 3}, {"x", 1, 0}, {"x", 0, 0}, {"", 1, 1},
	{"x_1", 1, 1}, {"x", 0, 1000}, {"x", 1000, 0}, {"X", 1, 1}, {"x,1", 1, 1}, {"x", 2, -1}, {"x", 0, 65536},
	{"xx", 0, 0}, {"x", 5, 5}, {"x#1", 1, 1}, {"x\x1fc\x1f1", 1, 1}, {"x 1", 1, 1}, {"x-1", 1, 1}, {"x:1", 1, 1},
	{"x", 10, 7}, {"x", 2, 3}, {"x", 3, 2}, {"y", 2, 3},
}

// names that a canonical form would confuse
var oddNames = []string{"x", "X", " x", "x ", "x\n", "\tx", "x.", "x\x00", "x-y", "x_y", "xy", "x y", "x  y", "x/y", "../x", "\u00e9", "e\u0301", "e", "\u00c9", "\xff", "\ufffd", "\xfe", "0", "00", "1", "01", "1.0", "+1", "\"x\"", "%x", "%78"}

func (a *Analyzer) checkNumbers(r *Report) {
	r.reason = "Constructor and methods of the library's context are summarised to transfer functions over its state (result and new state as terms over the old state and the arguments). Every sequence of CNFVar, CNFVarExists, TopV, UpdateTopV, Reset and scoping operations up to a length, and long pseudo-random ones over triples that naive keys confuse, is composed from them; each answer must agree with the reference: same triple same number, new triple a number above everything assigned or reserved."
	cs, err := a.CtxSummaries()
	if err != nil {
		r.undecided(err.Error())
		return
	}
	// all short sequences, states merged
	ts := []triple{{"x", 1, 11}, {"x", 11, 1}, {"x1", 1, 1}, {"y", 0, 0}}
	ops := cnfCalls("CNFVar", ts...)
	ops = append(ops, cnfCalls("CNFVarExists", ts[:2]...)...)
	ops = append(ops, ctxCall{"UpdateTopV", []Val{int64(0)}}, ctxCall{"UpdateTopV", []Val{int64(1)}}, ctxCall{"UpdateTopV", []Val{int64(2)}}, ctxCall{"UpdateTopV", []Val{int64(7)}},
		ctxCall{"TopV", nil}, ctxCall{"Reset", nil}, ctxCall{"AddScope", []Val{"c"}}, ctxCall{"PopScope", nil}, ctxCall{"AddVar", []Val{"x"}})
	depth := 5
	if r.thorough() {
		depth = 7
	}
	type node struct {
		x *ctxRun
		s *numSpec
	}
	skey := func(n node) string {
		k := n.x.c.key() + fmt.Sprint(n.s.floor)
		for _, t := range ts {
			k += fmt.Sprint(",", n.s.num[t])
		}
		return k
	}
	start := node{a.newCtxRun(r, cs), &numSpec{num: map[triple]int64{}}}
	seen := map[string]bool{skey(start): true}
	level := []node{start}
	for d := 0; d < depth; d++ {
		var next []node
		for _, n := range level {
			for _, op := range ops {
				y := node{n.x.clone(), n.s.clone()}
				if !y.x.numStep(y.s, op) {
					continue
				}
				if k := skey(y); !seen[k] {
					seen[k] = true
					next = append(next, y)
				}
			}
		}
		level = next
	}
	r.ok("numbering states", len(seen))
	// long sequences
	n, length := 24, 120
	if r.thorough() {
		n, length = 200, 400
	}
	var jobs []func()
	for i := 0; i < n; i++ {
		i := i
		jobs = append(jobs, func() {
			rd := rand.New(rand.NewSource(int64(i)*77 + r.seed))
			x := a.newCtxRun(r, cs)
			s := &numSpec{num: map[triple]int64{}}
			depth := 0
			for k := 0; k < length; k++ {
				var c ctxCall
				t := hardTriples[rd.Intn(len(hardTriples))]
				if i%3 == 2 {
					t = triple{string(rune('a' + rd.Intn(3))), int64(rd.Intn(30)), int64(rd.Intn(30))}
				}
				switch w := rd.Intn(100); {
				case w < 55:
					c = cnfCalls("CNFVar", t)[0]
				case w < 70:
					c = cnfCalls("CNFVarExists", t)[0]
				case w < 80:
					c = ctxCall{"UpdateTopV", []Val{s.floor + int64(rd.Intn(7)) - 3}}
				case w < 88:
					c = ctxCall{"TopV", nil}
				case w < 91:
					c = ctxCall{"AddScope", []Val{"c"}}
					depth++
				case w < 94:
					c = ctxCall{"PopScope", nil}
				case w < 96:
					c = ctxCall{"SetScope", []Val{int64(rd.Intn(12)), someVal(1, 0)}}
				case w < 98:
					c = ctxCall{"AddVar", []Val{t.q}}
				case w < 99 && i%2 == 0:
					c = ctxCall{"Reset", nil}
				default:
					c = ctxCall{"ScopeVar", []Val{t.q}}
				}
				if !x.numStep(s, c) {
					return
				}
			}
		})
	}
	jobs = append(jobs, a.wideNumbers(r, cs)...)
	r.parallel(jobs)
	r.use(start.x.m)
}

// wideNumbers are sequences with large indices, values, numbers and counts.
func (a *Analyzer) wideNumbers(r *Report, cs *CtxSums) []func() {
	sz := around(a.sizes(3000, "query"))
	is := []int64{0, 1, 2, 7, 8, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 257, 258, 511, 512, 999, 1000, 1001, 1024, 4095, 4096, 9999, 10000, 32767, 32768, 65535, 65536, 65537, 100000, 131072, 1 << 20, 1<<20 + 1}
	for _, n := range sz {
		is = append(is, int64(n))
	}
	names := append([]string{"x", "y"}, oddNames...)
	for _, n := range []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257} {
		names = append(names, strings.Repeat("v", n), strings.Repeat("v", n-1)+"w", "w"+strings.Repeat("v", n-1))
	}
	run := func(f func(x *ctxRun, s *numSpec)) func() {
		return func() {
			x, s := a.newCtxRun(r, cs), &numSpec{num: map[triple]int64{}}
			f(x, s)
		}
	}
	seq := func(ts []triple) func() {
		return run(func(x *ctxRun, s *numSpec) {
			for _, t := range ts {
				if !x.numStep(s, cnfCalls("CNFVar", t)[0]) {
					return
				}
			}
			if !x.numStep(s, ctxCall{"TopV", nil}) {
				return
			}
			for i := len(ts) - 1; i >= 0; i -= 1 + i/50 {
				if !x.numStep(s, cnfCalls("CNFVarExists", ts[i])[0]) || !x.numStep(s, cnfCalls("CNFVar", ts[i])[0]) {
					return
				}
			}
		})
	}
	var a1, a2, a3, a4 []triple
	for _, i := range is {
		a1 = append(a1, triple{"x", i, 0}, triple{"x", i, 1})
		a2 = append(a2, triple{"x", 0, i}, triple{"x", 1, i})
		a3 = append(a3, triple{"x", i, i}, triple{"x", i, i + 1}, triple{"x", i + 1, i})
	}
	for _, n := range names {
		a4 = append(a4, triple{n, 0, 1}, triple{n, 1, 0})
	}
	out := []func(){seq(a1), seq(a2), seq(a3), seq(a4), seq(append(append([]triple{}, a1...), a2...))}
	// many variables
	count := 330
	for _, n := range append(sz, a.narrow(70000, "query")...) {
		if n+20 > count && (n <= 3000 || r.thorough()) {
			count = n + 20
		}
	}
	var many []triple
	for i := 0; i < count; i++ {
		many = append(many, triple{"x", int64(i / 3), int64(i % 3)})
	}
	out = append(out, seq(many))
	// large numbers
	var tops []int64
	for _, n := range []int64{100, 126, 127, 128, 254, 255, 256, 1000, 32766, 32767, 32768, 65534, 65535, 65536, 1000000, 1<<31 - 2, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1, 1 << 32, 1 << 40} {
		tops = append(tops, n)
	}
	for _, n := range sz {
		tops = append(tops, int64(n))
	}
	for _, n := range tops {
		n := n
		out = append(out, run(func(x *ctxRun, s *numSpec) {
			cs := append(cnfCalls("CNFVar", triple{"x", 0, 0}), ctxCall{"UpdateTopV", []Val{n}}, ctxCall{"TopV", nil})
			cs = append(cs, cnfCalls("CNFVar", triple{"x", 0, 0}, triple{"x", 0, 1}, triple{"y", 0, 1}, triple{"x", 0, 1})...)
			cs = append(cs, ctxCall{"TopV", nil}, ctxCall{"UpdateTopV", []Val{n - 1}}, ctxCall{"UpdateTopV", []Val{n + 5}})
			cs = append(cs, cnfCalls("CNFVar", triple{"y", 0, 1}, triple{"z", 0, 1})...)
			for _, c := range append(cs, ctxCall{"TopV", nil}) {
				if !x.numStep(s, c) {
					return
				}
			}
		}))
	}
	return out
}

// P21

type specScope struct {
	tgt string
	set bool
	idx int64
	val Val
}

type scopeSpec struct {
	st    []specScope
	decl  map[string]int // level at which a variable was declared
	murky map[string]int // redeclared inside: unspecified above this level
}

func newScopeSpec() *scopeSpec { return &scopeSpec{decl: map[string]int{}, murky: map[string]int{}} }

func (s *scopeSpec) clone() *scopeSpec {
	n := newScopeSpec()
	n.st = append([]specScope{}, s.st...)
	for k, v := range s.decl {
		n.decl[k] = v
	}
	for k, v := range s.murky {
		n.murky[k] = v
	}
	return n
}

func (s *scopeSpec) key() string {
	k := ""
	for _, x := range s.st {
		k += fmt.Sprintf("%s/%v/%d/%s;", x.tgt, x.set, x.idx, vkey(x.val))
	}
	return k + fmt.Sprint(s.decl) + fmt.Sprint(s.murky)
}

// nameKey is what the scoped name of v must depend on.
func (s *scopeSpec) nameKey(v string) (string, bool) {
	if l, ok := s.murky[v]; ok && len(s.st) >= l {
		return "", false
	}
	k := fmt.Sprintf("%q", v)
	for i := 0; i < s.decl[v]; i++ {
		if !s.st[i].set {
			return "", false
		}
		k += fmt.Sprintf("|%q,%d", s.st[i].tgt, s.st[i].idx)
	}
	return k, true
}

type nameReg struct {
	byKey  map[string]string
	byName map[string]string
}

func (x *ctxRun) scopeStep(s *scopeSpec, c ctxCall) bool {
	res, ok := x.do(c.op, c.args...)
	if !ok {
		return false
	}
	defer x.r.ok("scoping", 1)
	n := len(s.st)
	isErr := func() bool { return len(res) > 0 && res[0] != nil }
	switch c.op {
	case "AddScope":
		s.st = append(s.st, specScope{tgt: toStr(c.args[0])})
	case "SetScope":
		if n == 0 {
			if !isErr() {
				x.bad("empty stack", c.op, "no error on an empty scope stack")
				return false
			}
			return true
		}
		if isErr() {
			x.bad("valid use", c.op, "an error is returned though a scope is open")
			return false
		}
		s.st[n-1].set, s.st[n-1].idx, s.st[n-1].val = true, c.args[0].(int64), c.args[1]
	case "PopScope":
		if n == 0 {
			if !isErr() {
				x.bad("empty stack", c.op, "no error on an empty scope stack")
				return false
			}
			return true
		}
		if isErr() {
			x.bad("valid use", c.op, "an error is returned though a scope is open")
			return false
		}
		for v, l := range s.decl {
			if l == n {
				delete(s.decl, v)
			}
		}
		for v, l := range s.murky {
			if l == n {
				delete(s.murky, v)
			}
		}
		s.st = s.st[:n-1]
	case "AddVar":
		v := toStr(c.args[0])
		if n == 0 {
			return true
		}
		if l, ok := s.decl[v]; ok {
			if l < n {
				if _, ok := s.murky[v]; !ok {
					s.murky[v] = l + 1
				}
				if s.murky[v] > n {
					s.murky[v] = n
				}
			}
			return true
		}
		s.decl[v] = n
	case "Reset":
		*s = *newScopeSpec()
	}
	return true
}

func (x *ctxRun) scopeLook(s *scopeSpec, reg *nameReg, vars, ids []string) bool {
	for _, v := range vars {
		res, ok := x.ask("ScopeVar", v)
		if !ok {
			return false
		}
		name := toStr(res[0])
		x.r.ok("scoped names", 1)
		if len(s.st) == 0 && name != v {
			x.bad("name outside", "ScopeVar", "%q is called %q outside any scope", v, name)
			return false
		}
		key, def := s.nameKey(v)
		if !def {
			continue
		}
		if old, ok := reg.byKey[key]; ok && old != name {
			x.bad("one name per instance", "ScopeVar", "%q is called %q here and %q elsewhere with the same scopes and iterations at its declaration", v, name, old)
			return false
		}
		if old, ok := reg.byName[name]; ok && old != key {
			x.bad("names kept apart", "ScopeVar", "%q is called %q here, which also names %s", v, name, old)
			return false
		}
		reg.byKey[key], reg.byName[name] = name, key
	}
	ct := x.a.typeOf("query", "QConst")
	for _, id := range ids {
		orig := mkStruct(ct, map[string]Val{"ID": id, "Val": someVal(2, 2)})
		res, ok := x.ask("ScopeConst", orig)
		if !ok {
			return false
		}
		x.r.ok("scoped constants", 1)
		k := -1
		for i := len(s.st) - 1; i >= 0; i-- {
			if s.st[i].tgt == id {
				k = i
				break
			}
		}
		if k < 0 {
			if res[1] != false || !veq(res[0], orig) {
				x.bad("unbound constant", "ScopeConst", "a constant %q that no open scope names is bound to %s", id, vkey(res[0]))
				return false
			}
			continue
		}
		if res[1] != true {
			x.bad("bound constant", "ScopeConst", "constant %q is not bound though an open scope names it", id)
			return false
		}
		if !s.st[k].set {
			continue
		}
		want := mkStruct(ct, map[string]Val{"ID": id, "Val": s.st[k].val})
		if !veq(res[0], want) {
			x.bad("bound constant", "ScopeConst", "constant %q is bound to %s instead of %s", id, vkey(res[0]), vkey(want))
			return false
		}
	}
	return true
}

func (a *Analyzer) checkScoping(r *Report) {
	r.reason = "The context's scoping operations are summarised to transfer functions over its state. Every sequence of AddScope, SetScope, PopScope, AddVar and Reset up to a length, and long pseudo-random ones, is composed from them; after each step the scoped name of every variable and the binding of every constant, computed from the summaries of ScopeVar and ScopeConst, is compared with a reference that keeps a stack of scopes and the level of each declaration. Names must be a function of variable and (quantifier, iteration) pairs at the declaration, and distinct for distinct ones over everything explored."
	cs, err := a.CtxSummaries()
	if err != nil {
		r.undecided(err.Error())
		return
	}
	ops := []ctxCall{
		{"AddScope", []Val{"c"}}, {"AddScope", []Val{"c1"}},
		{"SetScope", []Val{int64(1), someVal(1, 0)}}, {"SetScope", []Val{int64(11), someVal(2, 1)}},
		{"PopScope", nil}, {"AddVar", []Val{"x"}}, {"AddVar", []Val{"y"}}, {"Reset", nil},
	}
	vars, ids := []string{"x", "y", "x1"}, []string{"c", "c1", "d"}
	depth := 6
	if r.thorough() {
		depth = 8
	}
	type node struct {
		x *ctxRun
		s *scopeSpec
	}
	reg := &nameReg{map[string]string{}, map[string]string{}}
	start := node{a.newCtxRun(r, cs), newScopeSpec()}
	start.x.scopeLook(start.s, reg, vars, ids)
	key := func(n node) string { return n.x.c.key() + n.s.key() }
	seen := map[string]bool{key(start): true}
	level := []node{start}
	for d := 0; d < depth; d++ {
		var next []node
		for _, n := range level {
			for _, op := range ops {
				y := node{n.x.clone(), n.s.clone()}
				if !y.x.scopeStep(y.s, op) {
					continue
				}
				k := key(y)
				if seen[k] {
					continue
				}
				seen[k] = true
				if y.x.scopeLook(y.s, reg, vars, ids) {
					next = append(next, y)
				}
			}
		}
		level = next
		if len(seen) > 60000 {
			break
		}
	}
	r.ok("scoping states", len(seen))
	n, length := 24, 60
	if r.thorough() {
		n, length = 200, 150
	}
	var jobs []func()
	vars = []string{"x", "x1", "x11", "y", "", "xc", "x_c"}
	ids = []string{"c", "c1", "1", "x", "c_1"}
	for i := 0; i < n; i++ {
		i := i
		jobs = append(jobs, func() {
			rd := rand.New(rand.NewSource(int64(i)*991 + r.seed))
			reg := &nameReg{map[string]string{}, map[string]string{}}
			x, s := a.newCtxRun(r, cs), newScopeSpec()
			for k := 0; k < length; k++ {
				var c ctxCall
				switch w := rd.Intn(100); {
				case w < 22:
					c = ctxCall{"AddScope", []Val{ids[rd.Intn(len(ids))]}}
				case w < 52:
					c = ctxCall{"SetScope", []Val{[]Val{int64(0), int64(1), int64(11), int64(111), int64(2), int64(12)}[rd.Intn(6)], someVal(int64(rd.Intn(3)), int64(rd.Intn(3)))}}
				case w < 67:
					c = ctxCall{"PopScope", nil}
				case w < 90:
					c = ctxCall{"AddVar", []Val{vars[rd.Intn(len(vars))]}}
				case w < 91:
					c = ctxCall{"Reset", nil}
				case w < 95:
					c = ctxCall{"ScopeVar", []Val{vars[rd.Intn(len(vars))]}}
				default:
					c = cnfCalls("CNFVar", hardTriples[rd.Intn(len(hardTriples))])[0]
				}
				if !x.scopeStep(s, c) || !x.scopeLook(s, reg, vars, ids) {
					return
				}
			}
		})
	}
	jobs = append(jobs, a.wideScopes(r, cs)...)
	r.parallel(jobs)
	r.use(start.x.m)
}

// wideScopes are deep stacks, large iteration indices and long names.
func (a *Analyzer) wideScopes(r *Report, cs *CtxSums) []func() {
	sz := around(a.sizes(200, "query"))
	depth := 24
	for _, n := range sz {
		depth = max(depth, n+1)
	}
	is := []int64{0, 1, 2, 9, 10, 11, 12, 19, 20, 21, 30, 31, 32, 99, 100, 101, 110, 111, 127, 128, 129, 255, 256, 257, 258, 511, 512, 999, 1000, 1001, 4095, 4096, 9999, 10000, 32767, 32768, 55295, 55296, 55297, 57343, 65533, 65534, 65535, 65536, 65537, 99999, 100000, 1114111, 1114112, 1114113}
	for _, n := range around(a.sizes(3000, "query")) {
		is = append(is, int64(n))
	}
	steps := func(vars, ids []string, f func(do func(op string, args ...Val) bool)) func() {
		return func() {
			reg := &nameReg{map[string]string{}, map[string]string{}}
			x, s := a.newCtxRun(r, cs), newScopeSpec()
			f(func(op string, args ...Val) bool {
				return x.scopeStep(s, ctxCall{op, args}) && x.scopeLook(s, reg, vars, ids)
			})
		}
	}
	num := func(i int) string { return fmt.Sprint(i) }
	var out []func()
	// iterations
	out = append(out, steps([]string{"x", "x1", "y"}, []string{"c", "d"}, func(do func(string, ...Val) bool) {
		if !do("AddScope", "c") || !do("SetScope", int64(0), someVal(0, 1)) || !do("AddVar", "x") {
			return
		}
		for k, i := range is {
			if !do("SetScope", i, someVal(int64(k%3), 1)) {
				return
			}
		}
		if !do("AddScope", "d") || !do("SetScope", int64(1), someVal(2, 1)) || !do("AddVar", "y") {
			return
		}
		for k, i := range is {
			if !do("SetScope", i, someVal(int64(k%3), 2)) {
				return
			}
		}
	}))
	// depth, with a variable declared at every level
	for mode := 0; mode < 2; mode++ {
		mode := mode
		var vars, ids []string
		for i := 0; i <= depth; i++ {
			if i < 5 || i > depth-5 || i%7 == 0 {
				vars = append(vars, "v"+num(i))
			}
			if i%3 == 0 {
				ids = append(ids, "c"+num(i))
			}
		}
		vars = append(vars, "w")
		out = append(out, steps(vars, ids, func(do func(string, ...Val) bool) {
			for i := 1; i <= depth; i++ {
				c := "c" + num(i)
				if mode == 1 {
					c = "c"
				}
				if !do("AddScope", c) || !do("SetScope", int64(i%3), someVal(int64(i%3), 1)) || !do("AddVar", "v"+num(i)) {
					return
				}
			}
			for _, i := range []int64{5, 11, 256} { // the innermost iterates
				if !do("SetScope", i, someVal(0, 0)) {
					return
				}
			}
			if !do("AddVar", "w") {
				return
			}
			for i := depth; i >= 1; i-- {
				if !do("PopScope") {
					return
				}
				if i > 1 && !do("SetScope", int64(i%3+1), someVal(1, 1)) {
					return
				}
			}
			do("PopScope")
		}))
	}
	// odd names and targets
	out = append(out, steps(oddNames, oddNames, func(do func(string, ...Val) bool) {
		for i, id := range oddNames {
			if !do("AddScope", id) || !do("SetScope", int64(i%2), someVal(int64(i%3), 1)) {
				return
			}
			if !do("AddVar", oddNames[(i+1)%len(oddNames)]) || !do("AddVar", oddNames[(2*i)%len(oddNames)]) {
				return
			}
			if i%3 == 2 && (!do("PopScope") || !do("SetScope", int64(1-i%2), someVal(int64(i%3), 0)) || !do("PopScope")) {
				return
			}
		}
	}))
	// long names and targets
	var vars, ids []string
	for _, n := range []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 255, 256, 257} {
		vars = append(vars, strings.Repeat("v", n), strings.Repeat("v", n-1)+"w", "w"+strings.Repeat("v", n-1))
		ids = append(ids, strings.Repeat("c", n), strings.Repeat("c", n-1)+"d", "d"+strings.Repeat("c", n-1))
	}
	out = append(out, steps(vars, ids, func(do func(string, ...Val) bool) {
		for i, id := range ids {
			if !do("AddScope", id) || !do("SetScope", int64(i%2), someVal(int64(i%3), 1)) {
				return
			}
			for _, v := range vars {
				if !do("AddVar", v) {
					return
				}
			}
			if i%2 == 0 && !do("SetScope", int64(1-i%2), someVal(int64(i%3), 0)) {
				return
			}
			if !do("PopScope") {
				return
			}
		}
	}))
	// many variables at one level
	var many []string
	for i := 0; i < 40; i++ {
		many = append(many, "m"+num(i))
	}
	out = append(out, steps([]string{"m0", "m1", "m15", "m16", "m31", "m32", "m39", "z"}, []string{"c"}, func(do func(string, ...Val) bool) {
		if !do("AddScope", "c") || !do("SetScope", int64(1), someVal(1)) {
			return
		}
		for _, v := range many {
			if !do("AddVar", v) {
				return
			}
		}
		if do("SetScope", int64(2), someVal(2)) {
			do("PopScope")
		}
	}))
	return out
}
