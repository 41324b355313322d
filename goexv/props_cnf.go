package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/rand"
	"sort"
	"strconv"
	"strings"
)

// operations of package cnf

func (a *Analyzer) cnfMethod(name string) *types.Func {
	f := a.methodFn(a.cnf.typ, name)
	if f == nil || a.prog.Funcs[f] == nil {
		fail("cnf.CNF.%s not found", name)
	}
	return f
}

func (a *Analyzer) fnWhere(f *types.Func) (string, string) {
	if fd := a.prog.Funcs[f]; fd != nil {
		return shortName(f), a.prog.Pos(fd.Decl.Pos())
	}
	return shortName(f), ""
}

// callCNF evaluates the summary of a method on a formula.
func (a *Analyzer) callCNF(m *Machine, name string, recv *SV, args ...Val) ([]Val, *Stop) {
	sum := a.Summarise(a.cnfMethod(name))
	syms := map[string]Val{"ctx": ctxOV()}
	bindTree(syms, a.cnf.typ, "recv", recv)
	for i, v := range args {
		syms[fmt.Sprintf("a%d", i)] = v
	}
	res, _, stop := m.Call(sum, syms)
	return res, stop
}

// call evaluates the summary of a function on values.
func (a *Analyzer) callFn(m *Machine, fn *types.Func, recv Val, args ...Val) ([]Val, *Stop) {
	sum := a.Summarise(fn)
	syms := map[string]Val{"ctx": ctxOV()}
	if rt := fn.Type().(*types.Signature).Recv(); rt != nil {
		t := rt.Type()
		if p, ok := under(t).(*types.Pointer); ok {
			t = p.Elem()
		}
		bindTree(syms, t, "recv", recv)
	}
	for i, v := range args {
		syms[fmt.Sprintf("a%d", i)] = v
	}
	res, _, stop := m.Call(sum, syms)
	return res, stop
}

// globalVal evaluates the initial value of a package variable.
func (a *Analyzer) globalVal(rel, name string) Val {
	o, ok := a.prog.Lookup(rel, name).(*types.Var)
	if !ok {
		fail("variable %s.%s not found", rel, name)
	}
	a.mu.Lock()
	defer a.mu.Unlock()
	in := a.newInterp()
	st := &State{m: map[int]*T{}}
	var tr []*Item
	in.trace = &tr
	v := in.freeze(st, in.load(st, in.globalLV(o, st, token.NoPos)), false, token.NoPos)
	env := NewEnv()
	return env.eval(v, env.root)
}

var clausePool = [][]int{
	{}, {1}, {-1}, {2}, {1, 2}, {-1, 2}, {1, -2, 3}, {1, 1}, {1, -1}, {-3}, {-2, -3}, {3, 2, 1}, {-1, -2, -3}, {2, 2, -1},
}

type form struct{ s, c [][]int }

func (f form) String() string {
	if len(f.s)+len(f.c) > 12 {
		return fmt.Sprintf("%d semantic and %d consistency clauses", len(f.s), len(f.c))
	}
	return fmt.Sprintf("semantic %v consistency %v", clip(f.s), clip(f.c))
}

// clip shortens long clauses for messages.
func clip(cs [][]int) []string {
	var out []string
	for _, c := range cs {
		if len(c) > 12 {
			out = append(out, fmt.Sprintf("(%d literals)", len(c)))
			continue
		}
		out = append(out, fmt.Sprint(c))
	}
	return out
}

func consPool() [][][]int {
	return [][][]int{nil, {{1, 2}}, {{-3, 1}, {2}}, {{}}, {{5}, {-5, 4}}, {{4, -4}}, {{-1}, {1}}}
}

// forms is the family of formulas for the operations of package cnf.
func forms(thorough bool) []form {
	var out []form
	cons := consPool()
	add := func(s [][]int) {
		for i, c := range cons {
			if len(s) > 1 && !thorough && (i+len(out))%3 != 0 && i > 0 {
				continue
			}
			out = append(out, form{s, c})
		}
	}
	add(nil)
	add([][]int{})
	for _, x := range clausePool {
		add([][]int{x})
		for _, y := range clausePool {
			add([][]int{x, y})
		}
	}
	r := rand.New(rand.NewSource(3))
	n := 120
	if thorough {
		n = 4000
	}
	for i := 0; i < n; i++ {
		k := 3 + r.Intn(3)
		var s [][]int
		for j := 0; j < k; j++ {
			p := clausePool[r.Intn(len(clausePool))]
			if len(p) == 0 && r.Intn(3) > 0 {
				p = clausePool[1+r.Intn(len(clausePool)-1)]
			}
			s = append(s, p)
		}
		out = append(out, form{s, cons[r.Intn(len(cons))]})
	}
	if thorough {
		for _, x := range clausePool {
			for _, y := range clausePool {
				for _, z := range clausePool {
					out = append(out, form{[][]int{x, y, z}, cons[len(out)%len(cons)]})
				}
			}
		}
	}
	return out
}

// farOff are numbers around which narrower integers wrap or floating-point
// numbers lose digits.
var farOff = []int{1<<15 - 3, 1<<16 - 3, 1<<24 - 3, 1<<31 - 3, 1<<32 - 3, 1<<40 - 3, 1<<53 - 3}

// away adds k to the variables of the clauses.
func away(cs [][]int, k int) [][]int {
	if cs == nil {
		return nil
	}
	out := make([][]int, len(cs))
	for i, c := range cs {
		out[i] = make([]int, len(c))
		for j, l := range c {
			if l < 0 {
				out[i][j] = l - k
			} else {
				out[i][j] = l + k
			}
		}
	}
	return out
}

// farForms are formulas over large variables.
func farForms() []form {
	var out []form
	for _, k := range farOff {
		out = append(out, form{away([][]int{{1, -2}, {-4, 3}, {5}}, k), away([][]int{{2}, {-5, 4, 6}}, k)},
			form{append(away([][]int{{1}, {-7, 2}}, k), []int{1, -3}), [][]int{{2, 3}}},
			form{[][]int{{1, -3}}, append([][]int{{2, 3}}, away([][]int{{-6, 1}}, k)...)})
	}
	return out
}

// noReq stands for no requested number.
const noReq = -1 << 30

// eachNegation evaluates Negate on the family, with several bounds on the
// variables in use.
func (a *Analyzer) eachNegation(r *Report, f func(fn, where, inst string, tv, req int, s, c [][]int, tv2 int, s2, c2 [][]int)) {
	neg := a.cnfMethod("Negate")
	fn, where := a.fnWhere(neg)
	a.Summarise(neg)
	var jobs []func()
	for i, x := range a.allForms(r.thorough()) {
		top := maxAbs(x.s, x.c)
		type arg struct{ tv, req int }
		as := []arg{{top, noReq}, {top, top - 1}, {top + 2, noReq}, {top, top + 3}, {top + 4, top + 1}, {top, 0}, {top + 1, 1}, {top, -3}}
		if !r.thorough() && len(x.s) > 1 {
			as = []arg{as[i%8], as[(i+3)%8], as[(i+6)%8]}
		}
		for _, ar := range as {
			x, ar := x, ar
			jobs = append(jobs, func() {
				m := NewMachine(a, 1, nil)
				inst := fmt.Sprintf("%s, top variable %d", x, ar.tv)
				var va Val
				if ar.req != noReq {
					va = []Val{int64(ar.req)}
					inst += fmt.Sprintf(", requested %d", ar.req)
				}
				res, stop := a.callCNF(m, "Negate", a.mkCNF(ar.tv, x.s, x.c), va)
				r.use(m)
				if stop != nil {
					r.stop("negation", fn, stop, inst)
					return
				}
				tv2, s2, c2 := a.cnfParts(res[0])
				f(fn, where, inst, ar.tv, ar.req, x.s, x.c, tv2, s2, c2)
			})
		}
	}
	// formulas over large variables, judged after moving them back
	for _, k := range farOff {
		for i, x := range forms(false) {
			if i%4 != 0 || len(x.s) == 0 {
				continue
			}
			x, k, i := x, k, i
			top := maxAbs(x.s, x.c)
			jobs = append(jobs, func() {
				m := NewMachine(a, 1, nil)
				req := top + []int{-1, 0, 2}[i%3]
				inst := fmt.Sprintf("%s with variables moved by %d, requested %d", x, k, k+req)
				res, stop := a.callCNF(m, "Negate", a.mkCNF(k+top, away(x.s, k), away(x.c, k)), []Val{int64(k + req)})
				r.use(m)
				if stop != nil {
					r.stop("negation", fn, stop, inst)
					return
				}
				tv2, s2, c2 := a.cnfParts(res[0])
				for _, cs := range [][][]int{s2, c2} {
					for _, c := range cs {
						for _, l := range c {
							if l <= k && -l <= k {
								r.bad("negation", fn, where, fmt.Sprintf("variable %d of the negation is neither one of the formula nor a new one (%s)", l, inst))
								return
							}
						}
					}
				}
				f(fn, where, inst, top, req, x.s, x.c, tv2-k, away(s2, -k), away(c2, -k))
			})
		}
	}
	r.parallel(jobs)
}

// allForms adds the large formulas the source suggests.
func (a *Analyzer) allForms(thorough bool) []form {
	limit := 1200
	ns := []int{20, 70, 140, 300}
	if thorough {
		limit = 5000
		ns = append(ns, 1030, 2050)
	}
	set := map[int]bool{}
	for _, n := range append(ns, around(append(a.sizes(limit, "cnf"), a.narrow(1000, "cnf")...))...) {
		set[n] = true
	}
	ns = ns[:0]
	for n := range set {
		ns = append(ns, n)
	}
	sort.Ints(ns)
	return append(forms(thorough), wideForms(ns)...)
}

// holds evaluates clauses under a valuation of variables 1..len(p).
func holds(cs [][]int, p []bool) bool {
	for _, c := range cs {
		ok := false
		for _, l := range c {
			v := l
			if v < 0 {
				v = -v
			}
			if v <= len(p) && p[v-1] == (l > 0) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func assignAll(p []bool) []int {
	out := make([]int, len(p))
	for i, b := range p {
		out[i] = i + 1
		if !b {
			out[i] = -(i + 1)
		}
	}
	return out
}

// checkNegate decides P13.
func (a *Analyzer) checkNegate(r *Report) {
	r.reason = "CNF.Negate and its helpers are summarised; the summary is instantiated on a family of formulas (no clauses, empty clauses, units, repeated and opposite literals, several consistency parts, spare numbers, requested numbers). For every valuation of the old variables that satisfies the old consistency clauses, the new consistency clauses must be extensible and the new semantic clauses true exactly when the old ones are false; the same after a second negation."
	neg := a.cnfMethod("Negate")
	each := func(n int, s, c [][]int, f func(p []bool) bool) {
		if n <= 10 {
			valuations(n, f)
			return
		}
		someValuations(n, s, c, f)
	}
	short := func(p []bool) []int {
		if len(p) > 12 {
			return nil
		}
		return assignAll(p)
	}
	one := func(fn, where, inst string, s, c, s2, c2 [][]int) bool {
		if k, ok := subset(clauseSet(c), clauseSet(c2)); !ok {
			r.bad("consistency kept", fn, where, "consistency clause "+k+" is lost ("+inst+")")
		}
		n := max(maxAbs(s), maxAbs(c))
		base := newSatN(maxAbs(s2, c2), c2)
		bad := ""
		cnt := 0
		each(n, s, c, func(p []bool) bool {
			if !holds(c, p) {
				return true
			}
			cnt++
			pos, ng, cons := formulaTruth(base, s2, assignAll(p))
			w := !holds(s, p)
			switch {
			case !cons:
				bad = "its consistency clauses exclude a valuation"
			case pos != w:
				bad = fmt.Sprintf("the negation is %v but should be %v", pos, w)
			case ng != !w:
				bad = fmt.Sprintf("the negation can be %v but should be %v", !ng, w)
			}
			if bad != "" {
				bad += fmt.Sprintf(" for %v", short(p))
			}
			return bad == ""
		})
		r.ok("negation", cnt)
		if bad != "" {
			r.bad("negation", fn, where, bad+" ("+inst+")")
			return false
		}
		return true
	}
	a.eachNegation(r, func(fn, where, inst string, tv, req int, s, c [][]int, tv2 int, s2, c2 [][]int) {
		if !one(fn, where, inst, s, c, s2, c2) {
			return
		}
		m := NewMachine(a, 1, nil)
		res, stop := a.callCNF(m, "Negate", a.mkCNF(tv2, s2, c2), nil)
		if stop != nil {
			r.stop("double negation", fn, stop, inst)
			return
		}
		_, s3, c3 := a.cnfParts(res[0])
		// the double negation is compared with the original formula
		n := max(maxAbs(s), maxAbs(c))
		base := newSatN(maxAbs(s3, c3), c3)
		each(n, s, c, func(p []bool) bool {
			if !holds(c, p) {
				return true
			}
			pos, ng, cons := formulaTruth(base, s3, assignAll(p))
			w := holds(s, p)
			if !cons || pos != w || ng == w {
				r.bad("double negation", fn, where, fmt.Sprintf("negating twice gives %v instead of %v for %v (%s)", pos, w, short(p), inst))
				return false
			}
			return true
		})
		r.ok("double negation", 1)
	})
	_ = neg
}

func clausesVal(cs [][]int) Val { return fromClauses(cs) }

// checkAppend decides P14.
func (a *Analyzer) checkAppend(r *Report) {
	r.reason = "FromClauses, AppendSemantics, AppendConsistency, Conjunction, Clauses, TriviallyTrue, TriviallyFalse and the package's constant formulas are summarised and instantiated on pairs of formulas; the clause sets of the results are compared with the unions they stand for, and the triviality tests with satisfiability and validity of the formula."
	fs := a.allForms(r.thorough())
	r2 := rand.New(rand.NewSource(9))
	// one representative formula set for second operands
	var small []form
	for i := 0; i < len(fs); i += 1 + len(fs)/40 {
		small = append(small, fs[i])
	}
	from := a.prog.Func("cnf", "FromClauses")
	if from == nil {
		fail("cnf.FromClauses not found")
	}
	for _, n := range []string{"AppendSemantics", "AppendConsistency", "Conjunction", "Clauses", "TriviallyTrue", "TriviallyFalse"} {
		a.Summarise(a.cnfMethod(n))
	}
	a.Summarise(from)
	sets := func(fn, where, inst string, got Val, ws, wc [][]int) {
		_, s, c := a.cnfParts(got)
		for _, q := range []struct {
			n    string
			g, w [][]int
		}{{"semantic", s, ws}, {"consistency", c, wc}} {
			if k, ok := subset(clauseSet(q.w), clauseSet(q.g)); !ok {
				r.bad("clauses kept", fn, where, fmt.Sprintf("%s clause [%s] is lost (%s)", q.n, k, inst))
			}
			if k, ok := subset(clauseSet(q.g), clauseSet(q.w)); !ok {
				r.bad("no new clauses", fn, where, fmt.Sprintf("%s clause [%s] is new (%s)", q.n, k, inst))
			}
			r.ok("clause sets", 2)
		}
	}
	join := func(x, y [][]int) [][]int { return append(append([][]int{}, x...), y...) }
	var jobs []func()
	for _, x := range fs {
		x := x
		y := small[r2.Intn(len(small))]
		z := small[r2.Intn(len(small))]
		jobs = append(jobs, func() {
			m := NewMachine(a, 1, nil)
			defer r.use(m)
			f := a.mkCNF(maxAbs(x.s, x.c), x.s, x.c)
			for _, o := range []form{y, z} {
				inst := fmt.Sprintf("%s with %s", x, o)
				do := func(name string, arg Val, ws, wc [][]int) {
					fn, where := a.fnWhere(a.cnfMethod(name))
					res, stop := a.callCNF(m, name, f, arg)
					if stop != nil {
						r.stop("append", fn, stop, inst)
						return
					}
					sets(fn, where, inst, res[0], ws, wc)
				}
				do("AppendSemantics", clausesVal(o.s), join(x.s, o.s), x.c)
				do("AppendConsistency", clausesVal(o.s), x.s, join(x.c, o.s))
				do("Conjunction", a.mkCNF(maxAbs(o.s, o.c), o.s, o.c), join(x.s, o.s), join(x.c, o.c))
			}
			inst := x.String()
			if res, stop := a.callFn(m, from, nil, clausesVal(x.s)); stop != nil {
				r.stop("append", "cnf.FromClauses", stop, inst)
			} else {
				fn, where := a.fnWhere(from)
				sets(fn, where, inst, res[0], x.s, nil)
			}
			if res, stop := a.callCNF(m, "Clauses", f); stop != nil {
				r.stop("append", "Clauses", stop, inst)
			} else {
				fn, where := a.fnWhere(a.cnfMethod("Clauses"))
				for i, w := range [][][]int{x.s, x.c} {
					g := toClauses(res[i])
					k1, ok1 := subset(clauseSet(g), clauseSet(w))
					k2, ok2 := subset(clauseSet(w), clauseSet(g))
					if !ok1 || !ok2 || len(g) != len(w) {
						r.bad("clauses reported", fn, where, fmt.Sprintf("clauses [%s%s] differ (%s)", k1, k2, inst))
					}
				}
				r.ok("clauses reported", 1)
			}
			// triviality
			n := maxAbs(x.s, x.c)
			sat, valid := false, true
			all := newSatN(n, x.s, x.c)
			sat = all.solve()
			valuations(min(n, 6), func(p []bool) bool {
				if !holds(x.s, p) || !holds(x.c, p) {
					valid = false
				}
				return valid
			})
			empty := false
			for _, c := range append(append([][]int{}, x.s...), x.c...) {
				if len(c) == 0 {
					empty = true
				}
			}
			for _, q := range []struct {
				name        string
				must, mustN bool
			}{
				{"TriviallyTrue", len(x.s)+len(x.c) == 0, !valid},
				{"TriviallyFalse", empty, sat},
			} {
				fn, where := a.fnWhere(a.cnfMethod(q.name))
				res, stop := a.callCNF(m, q.name, f)
				if stop != nil {
					r.stop("triviality", fn, stop, inst)
					continue
				}
				got := res[0] == true
				if q.must && !got {
					r.bad("triviality found", fn, where, "not reported ("+inst+")")
				}
				if q.mustN && got {
					r.bad("triviality sound", fn, where, "wrongly reported ("+inst+")")
				}
				r.ok("triviality", 1)
			}
		})
	}
	jobs = append(jobs, func() {
		// constant formulas
		_, s, c := a.cnfParts(a.globalVal("cnf", "TrueCNF"))
		if len(s)+len(c) != 0 {
			r.bad("constant formulas", "cnf.TrueCNF", "cnf", fmt.Sprintf("the true formula has clauses %v %v", s, c))
		}
		_, s, c = a.cnfParts(a.globalVal("cnf", "FalseCNF"))
		if len(c) != 0 || newSat(s).solve() {
			r.bad("constant formulas", "cnf.FalseCNF", "cnf", fmt.Sprintf("the false formula has clauses %v %v", s, c))
		}
		if newSat(toClauses(a.globalVal("cnf", "NegClauses"))).solve() {
			r.bad("constant formulas", "cnf.NegClauses", "cnf", "the false clauses are satisfiable")
		}
		r.ok("constant formulas", 3)
	})
	r.parallel(jobs)
}

// checkTop decides P15.
func (a *Analyzer) checkTop(r *Report) {
	r.reason = "Every operation of package cnf that makes a formula, and every Encoding method, is summarised and instantiated; the reported top variable of the result must be at least the absolute value of each of its literals, given formulas for which that holds."
	top := func(rule, fn, where, inst string, v Val) {
		tv, s, c := a.cnfParts(v)
		if n := maxAbs(s, c); tv < n {
			r.bad(rule, fn, where, fmt.Sprintf("top variable %d is below variable %d of the formula (%s)", tv, n, inst))
		}
		r.ok(rule, 1)
	}
	fs := append([]form{}, a.allForms(r.thorough())...)
	fs = append(fs, farForms()...)
	// the largest variable anywhere in a clause and anywhere among the clauses
	for _, n := range []int{1, 2, 3, 4, 6, 9} {
		for at := 0; at < n; at++ {
			for _, sign := range []int{1, -1} {
				c := make([]int, n)
				for i := range c {
					c[i] = 1 + i%3
					if i%2 == 1 {
						c[i] = -c[i]
					}
				}
				c[at] = sign * 11
				for _, where := range []int{0, 1, 2} {
					cs := [][]int{{1, -2}, {2}, {-3, 1, 2}}
					cs[where] = c
					fs = append(fs, form{cs, nil}, form{nil, cs})
				}
			}
		}
	}
	from := a.prog.Func("cnf", "FromClauses")
	if from == nil {
		fail("cnf.FromClauses not found")
	}
	a.Summarise(from)
	for _, n := range []string{"AppendSemantics", "AppendConsistency", "Conjunction", "Negate", "TopV"} {
		a.Summarise(a.cnfMethod(n))
	}
	var jobs []func()
	for i, x := range fs {
		x, i := x, i
		jobs = append(jobs, func() {
			m := NewMachine(a, 1, nil)
			defer r.use(m)
			o := fs[(i*7+3)%len(fs)]
			// shift the second operand so that its variables are the larger ones
			shift := func(cs [][]int) [][]int {
				out := make([][]int, len(cs))
				for i, c := range cs {
					for _, l := range c {
						if l > 0 {
							out[i] = append(out[i], l+5)
						} else {
							out[i] = append(out[i], l-5)
						}
					}
				}
				return out
			}
			for _, o := range []form{o, {shift(o.s), shift(o.c)}} {
				for _, extra := range []int{0, 2} {
					f := a.mkCNF(maxAbs(x.s, x.c)+extra, x.s, x.c)
					inst := fmt.Sprintf("%s with %s", x, o)
					for _, name := range []string{"AppendSemantics", "AppendConsistency", "Conjunction"} {
						fn, where := a.fnWhere(a.cnfMethod(name))
						var arg Val = clausesVal(o.s)
						if name == "Conjunction" {
							arg = a.mkCNF(maxAbs(o.s, o.c), o.s, o.c)
						}
						res, stop := a.callCNF(m, name, f, arg)
						if stop != nil {
							r.stop("top variable", fn, stop, inst)
							continue
						}
						top("top variable", fn, where, inst, res[0])
						tv, _, _ := a.cnfParts(res[0])
						if tv < maxAbs(x.s, x.c)+extra {
							r.bad("top variable kept", fn, where, "top variable decreases ("+inst+")")
						}
						// chained
						if res2, stop := a.callCNF(m, "Negate", res[0].(*SV), nil); stop == nil {
							nf, nw := a.fnWhere(a.cnfMethod("Negate"))
							top("top variable", nf, nw, inst+" after "+name, res2[0])
						}
					}
					if res, stop := a.callCNF(m, "TopV", f); stop != nil {
						r.stop("top variable", "TopV", stop, inst)
					} else if n, _ := res[0].(int64); int(n) < maxAbs(x.s, x.c) {
						fn, where := a.fnWhere(a.cnfMethod("TopV"))
						r.bad("top variable reported", fn, where, fmt.Sprintf("reports %d for %s", n, x))
					} else {
						r.ok("top variable reported", 1)
					}
				}
			}
			if res, stop := a.callFn(m, from, nil, clausesVal(shift(x.s))); stop != nil {
				r.stop("top variable", "cnf.FromClauses", stop, x.String())
			} else {
				fn, where := a.fnWhere(from)
				top("top variable", fn, where, x.String(), res[0])
			}
		})
	}
	r.parallel(jobs)
	a.eachNegation(r, func(fn, where, inst string, tv, req int, s, c [][]int, tv2 int, s2, c2 [][]int) {
		if n := maxAbs(s2, c2); tv2 < n {
			r.bad("top variable", fn, where, fmt.Sprintf("top variable %d is below variable %d of the negation (%s)", tv2, n, inst))
		}
		r.ok("top variable", 1)
	})
	for _, g := range []string{"TrueCNF", "FalseCNF"} {
		top("top variable", "cnf."+g, "cnf", g, a.globalVal("cnf", g))
	}
	// the encodings
	a.eachEncoding(r, func(x *inst, m *Machine, res Val) {
		top("top variable of encodings", x.c.short, x.c.where, x.String(), res)
	})
	a.overBool(r, func(q *qexpr, c Ctx, cname string, m *Machine, s, cc [][]int, log *childLog) {
		fn, where := a.encWhere("query/logop", topOp(q))
		top("top variable of combinations", fn, where, q.String(), m.last)
	})
}

// allPkgs are the packages with components.
var encPkgs = []string{"subsumption", "lel", "isnode", "full", "cons", "allcomp", "dfs", "hepr", "leh"}

// eachEncoding evaluates every component on a thinned instance family.
func (a *Analyzer) eachEncoding(r *Report, f func(x *inst, m *Machine, res Val)) {
	comps := a.components(encPkgs...)
	for _, c := range comps {
		a.Summarise(c.encode)
	}
	var jobs []func()
	for _, c := range comps {
		k := 0
		step := 7
		if r.thorough() {
			step = 3
		}
		var batch []*inst
		flush := func() {
			b := batch
			batch = nil
			jobs = append(jobs, func() {
				for _, x := range b {
					m := NewMachine(a, x.m.dim, a.nodeVals(x.m.nodes))
					m.ctx = x.context(a)
					m.record = true
					res, err, stop := m.Encode(x.value(a), ctxOV())
					r.use(m)
					if stop != nil {
						if stop.kind == "undecided" {
							r.undecided(x.c.String() + ": " + stop.msg)
						}
						continue
					}
					if err != nil {
						continue
					}
					f(x, m, res)
				}
			})
		}
		instances(c, false, func(x *inst) {
			k++
			if x.m.dim > 1 && k%step != 0 {
				return
			}
			batch = append(batch, x)
			if len(batch) == 32 {
				flush()
			}
		})
		flush()
	}
	r.parallel(jobs)
}

// checkDIMACS decides P17.
func (a *Analyzer) checkDIMACS(r *Report) {
	r.reason = "CNF.ToBytes and CNF.ToFile are summarised: the first as a text over the clauses, the second as a sequence of create and write effects. Both are instantiated on the formula family; the text (for the file, what the writes add up to) must be one header with a variable count covering every literal and the exact number of clauses, followed by every clause once, ended by 0. The file must be the one asked for, and each failing create or write must be reported."
	toB, toF := a.cnfMethod("ToBytes"), a.cnfMethod("ToFile")
	a.Summarise(toB)
	a.Summarise(toF)
	a.checkReuse(r, "text in storage of its own", "cnf")
	fs := append([]form{}, a.allForms(r.thorough())...)
	fs = append(fs, farForms()...)
	fs = append(fs, form{[][]int{{12345, -7}, {-100}}, [][]int{{10, 11, 12, 13, 14, 15, 16, 17, 18, 19}}})
	var jobs []func()
	for i, x := range fs {
		x, i := x, i
		jobs = append(jobs, func() {
			m := NewMachine(a, 1, nil)
			m.record = true
			defer func() { r.use(m) }()
			extra := []int{0, 3}[i%2]
			f := a.mkCNF(maxAbs(x.s, x.c)+extra, x.s, x.c)
			all := append(append([][]int{}, x.s...), x.c...)
			fn, where := a.fnWhere(toB)
			if res, stop := a.callCNF(m, "ToBytes", f); stop != nil {
				r.stop("text", fn, stop, x.String())
			} else {
				if msg := dimacs(toStr(res[0]), all); msg != "" {
					r.bad("text", fn, where, msg+" ("+x.String()+")")
				}
				r.ok("text", 1)
			}
			fn, where = a.fnWhere(toF)
			nev := -1
			for fault := -2; fault <= nev; fault++ {
				m2 := NewMachine(a, 1, nil)
				fm := &fileModel{failAt: fault}
				if fault == -2 { // over an older file
					fm.text = map[string]string{"dir/out.cnf": "p cnf 3 2\n1 -2 3 0\n" + strings.Repeat("-1 2 0\n", 200)}
					fm.open = map[string]bool{}
				}
				m2.on = fm.on
				res, stop := a.callCNF(m2, "ToFile", f, "dir/out.cnf")
				r.use(m2)
				if stop != nil {
					r.stop("file", fn, stop, x.String())
					return
				}
				if fault < 0 {
					nev = fm.n - 1
					if res[0] != nil {
						r.bad("file", fn, where, "an error is returned though nothing failed ("+x.String()+")")
					}
					for p := range fm.text {
						if p != "dir/out.cnf" {
							r.bad("file", fn, where, "writes to "+p+" instead of the given path")
						}
					}
					if msg := dimacs(fm.text["dir/out.cnf"], all); msg != "" {
						r.bad("file", fn, where, msg+" ("+x.String()+")")
					}
					if fm.bad != "" {
						r.bad("file", fn, where, fm.bad+" ("+x.String()+")")
					}
					r.ok("file", 1)
					if len(x.s) > 2 && !r.thorough() {
						return
					}
				} else {
					if fm.failed && res[0] == nil {
						r.bad("write error reported", fn, where, fmt.Sprintf("a failing %s is not reported", fm.what))
					}
					r.ok("write error reported", 1)
				}
			}
		})
	}
	r.parallel(jobs)
}

// fileModel gives meaning to the file events of a summary.
type fileModel struct {
	text   map[string]string
	open   map[string]bool
	n      int
	failAt int
	failed bool
	what   string
	bad    string
}

func (fm *fileModel) on(m *Machine, name string, args []Val, it *Item) (map[string]Val, bool) {
	if fm.text == nil {
		fm.text, fm.open = map[string]string{}, map[string]bool{}
	}
	fault := func() Val {
		k := fm.n
		fm.n++
		if k == fm.failAt {
			fm.failed, fm.what = true, name
			return &EV{kind: "fault " + name}
		}
		return nil
	}
	path := func(v Val) string {
		if o, ok := v.(*OV); ok {
			return o.name
		}
		return vkey(v)
	}
	switch name {
	case "os.Create", "os.OpenFile":
		p := toStr(args[0])
		if e := fault(); e != nil {
			return map[string]Val{"0": nil, "1": e}, true
		}
		h := &OV{name: p, attr: map[string]Val{}}
		if name == "os.Create" {
			fm.text[p] = ""
		} else {
			create, excl, trunc, app, write := openMode(args[1])
			old, have := fm.text[p]
			if !have && !create || have && create && excl {
				return map[string]Val{"0": nil, "1": &EV{kind: "open " + p}}, true
			}
			if trunc {
				old = ""
			}
			fm.text[p] = old
			h.attr["append"], h.attr["readonly"] = app, !write
		}
		fm.open[p] = true
		return map[string]Val{"0": h, "1": nil}, true
	case "file.Write":
		if e := fault(); e != nil {
			return map[string]Val{"0": int64(0), "1": e}, true
		}
		p := path(args[0])
		s := toStr(args[1])
		if !fm.open[p] {
			fm.bad = "writes to a file that is not open"
		}
		if o, ok := args[0].(*OV); ok && o.attr["readonly"] == true {
			return map[string]Val{"0": int64(0), "1": &EV{kind: "file not open for writing"}}, true
		}
		fm.text[p] = writeAt(fm.text[p], args[0], s)
		return map[string]Val{"0": int64(len(s)), "1": nil}, true
	case "os.WriteFile":
		if e := fault(); e != nil {
			return map[string]Val{"0": e}, true
		}
		fm.text[toStr(args[0])] = toStr(args[1])
		return map[string]Val{"0": nil}, true
	case "file.Close", "file.Sync":
		fm.open[path(args[0])] = false
		if name == "file.Sync" {
			fm.open[path(args[0])] = true
		}
		return map[string]Val{"0": nil}, true
	}
	return nil, false
}

// dimacs checks that text is the DIMACS form of exactly the clauses.
func dimacs(text string, cls [][]int) string {
	var toks []string
	header := false
	nv, nc := 0, 0
	for _, ln := range strings.Split(text, "\n") {
		f := strings.Fields(ln)
		if len(f) == 0 || f[0] == "c" {
			continue
		}
		if f[0] == "p" {
			if header {
				return "two headers"
			}
			if len(toks) > 0 {
				return "clauses before the header"
			}
			if len(f) != 4 || f[1] != "cnf" {
				return fmt.Sprintf("malformed header %q", ln)
			}
			var e1, e2 error
			nv, e1 = strconv.Atoi(f[2])
			nc, e2 = strconv.Atoi(f[3])
			if e1 != nil || e2 != nil {
				return fmt.Sprintf("malformed header %q", ln)
			}
			header = true
			continue
		}
		toks = append(toks, f...)
	}
	if !header {
		return "no header"
	}
	if nc != len(cls) {
		return fmt.Sprintf("the header announces %d clauses instead of %d", nc, len(cls))
	}
	var got [][]int
	cur := []int{}
	for _, t := range toks {
		n, err := strconv.Atoi(t)
		if err != nil {
			return fmt.Sprintf("%q is not a literal", t)
		}
		if n == 0 {
			got = append(got, cur)
			cur = []int{}
			continue
		}
		if n > nv || -n > nv {
			return fmt.Sprintf("literal %d exceeds the announced %d variables", n, nv)
		}
		cur = append(cur, n)
	}
	if len(cur) > 0 {
		return "the last clause is not ended"
	}
	a, b := multi(got), multi(cls)
	for _, k := range countKeys(b) {
		if a[k] != b[k] {
			return fmt.Sprintf("clause [%s] occurs %d times instead of %d", k, a[k], b[k])
		}
	}
	for _, k := range countKeys(a) {
		if b[k] == 0 {
			return fmt.Sprintf("clause [%s] is not part of the formula", k)
		}
	}
	return ""
}

func multi(cs [][]int) map[string]int {
	m := map[string]int{}
	for _, c := range cs {
		m[clauseKey(c)]++
	}
	return m
}

func countKeys(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
