package main

import (
	"fmt"
	"go/types"
	"math/rand"
	"sort"
	"strings"
)

// ctxOV is the context operand; the machine's Ctx interprets it.
func ctxOV() Val { return &OV{name: "ctx"} }

// alloc asks the context for a solver variable.
func (m *Machine) alloc(q string, i, v int64) int {
	m.ctx.event(m, "CNFVar", []Val{q, i, v})
	return int(m.ctx.cnfvar(q, i, v))
}

func (m *Machine) ctxOp(name string, args ...Val) map[string]Val {
	return m.ctx.event(m, name, args)
}

func maxAbs(sets ...[][]int) int {
	top := 0
	for _, cs := range sets {
		for _, c := range cs {
			for _, l := range c {
				top = max(top, l, -l)
			}
		}
	}
	return top
}

func clauseKey(c []int) string {
	d := append([]int{}, c...)
	sort.Ints(d)
	var sb strings.Builder
	for i, l := range d {
		if i > 0 && d[i-1] == l {
			continue
		}
		fmt.Fprintf(&sb, "%d ", l)
	}
	return sb.String()
}

func clauseSet(cs [][]int) map[string]bool {
	m := map[string]bool{}
	for _, c := range cs {
		m[clauseKey(c)] = true
	}
	return m
}

func subset(a, b map[string]bool) (string, bool) {
	for _, k := range sortedStr(a) {
		if !b[k] {
			return k, false
		}
	}
	return "", true
}

// atom is a sub-query with a known formula over primitive variables.
type atom struct {
	name  string
	enc   func(m *Machine) (s, c [][]int)
	truth func(p []bool) bool
}

func prim(m *Machine, i int) int { return m.alloc("p", int64(i), 0) }

var atoms = []atom{
	{"lit", func(m *Machine) ([][]int, [][]int) { return [][]int{{prim(m, 0)}}, nil },
		func(p []bool) bool { return p[0] }},
	{"two", func(m *Machine) ([][]int, [][]int) {
		a, b := prim(m, 0), prim(m, 1)
		return [][]int{{a, -b}, {b}}, nil
	}, func(p []bool) bool { return p[0] && p[1] }},
	{"wide", func(m *Machine) ([][]int, [][]int) {
		a, b, c := prim(m, 0), prim(m, 1), prim(m, 2)
		return [][]int{{a, b, -c}}, nil
	}, func(p []bool) bool { return p[0] || p[1] || !p[2] }},
	{"true", func(m *Machine) ([][]int, [][]int) { return nil, nil },
		func(p []bool) bool { return true }},
	{"false", func(m *Machine) ([][]int, [][]int) { return [][]int{{}}, nil },
		func(p []bool) bool { return false }},
	{"defined", func(m *Machine) ([][]int, [][]int) {
		a, b, d := prim(m, 1), prim(m, 2), m.alloc("def", 0, 0)
		return [][]int{{d}, {a, b}}, [][]int{{-d, a}, {-d, -b}, {d, -a, b}}
	}, func(p []bool) bool { return p[1] && !p[2] }},
	{"constrained true", func(m *Machine) ([][]int, [][]int) {
		d := m.alloc("ct", 0, 0)
		return nil, [][]int{{d}}
	}, func(p []bool) bool { return true }},
	{"constrained false", func(m *Machine) ([][]int, [][]int) {
		d, a := m.alloc("cf", 0, 0), prim(m, 0)
		return [][]int{{a}, {}}, [][]int{{d, a}, {-d, -a}}
	}, func(p []bool) bool { return false }},
	{"three", func(m *Machine) ([][]int, [][]int) {
		a, b, c := prim(m, 0), prim(m, 1), prim(m, 2)
		return [][]int{{-a, -b, c}, {b}, {a, c}}, nil
	}, func(p []bool) bool { return (!p[0] || !p[1] || p[2]) && p[1] && (p[0] || p[2]) }},
}

// qexpr is a boolean combination of atoms.
type qexpr struct {
	op   byte // 'a' atom, 'n' not, '&', '|'
	at   int
	own  *atom
	l, r *qexpr
}

func (q *qexpr) atom() *atom {
	if q.own != nil {
		return q.own
	}
	return &atoms[q.at]
}

// manyAtom has n clauses, longAtom a clause of n literals; each has as many
// definitions.
func manyAtom(n int) *atom {
	return &atom{fmt.Sprintf("%d clauses", n), func(m *Machine) (s, c [][]int) {
		for i := 0; i < n; i++ {
			p := prim(m, 0)
			if i == 0 {
				p = prim(m, 1)
			} else if i == n-1 {
				p = prim(m, 2)
			}
			d := m.alloc("many", int64(i), int64(n))
			s, c = append(s, []int{d}), append(c, []int{-d, p}, []int{d, -p})
		}
		return s, c
	}, func(p []bool) bool { return p[0] && p[1] && p[2] }}
}

func longAtom(n int) *atom {
	return &atom{fmt.Sprintf("clause of %d literals", n), func(m *Machine) (s, c [][]int) {
		var cl []int
		for i := 0; i < n; i++ {
			p := prim(m, 0)
			if i == 0 {
				p = prim(m, 1)
			} else if i == n-1 {
				p = prim(m, 2)
			}
			d := m.alloc("long", int64(i), int64(n))
			cl, c = append(cl, d), append(c, []int{-d, p}, []int{d, -p})
		}
		return [][]int{cl}, c
	}, func(p []bool) bool { return p[0] || p[1] || p[2] }}
}

// wideQueries are compositions over large formulas.
func (a *Analyzer) wideQueries(thorough bool) []*qexpr {
	ns := []int{20, 70, 140, 300}
	limit := 1200
	if thorough {
		ns, limit = append(ns, 1030), 4000
	}
	ns = append(ns, around(append(a.sizes(limit, "logop", "cnf"), a.narrow(1000, "logop", "cnf")...))...)
	var out []*qexpr
	for _, n := range ns {
		for _, at := range []*atom{manyAtom(n), longAtom(n)} {
			w := func() *qexpr { return &qexpr{op: 'a', own: at} }
			out = append(out, &qexpr{op: 'n', l: w()}, &qexpr{op: 'n', l: &qexpr{op: 'n', l: w()}},
				&qexpr{op: '&', l: w(), r: qat(1)}, &qexpr{op: '&', l: qat(1), r: w()},
				&qexpr{op: '|', l: w(), r: qat(1)}, &qexpr{op: '|', l: qat(5), r: w()},
				&qexpr{op: '|', l: &qexpr{op: 'n', l: w()}, r: &qexpr{op: '&', l: qat(2), r: &qexpr{op: 'n', l: w()}}})
		}
	}
	// long chains of operators
	for _, o := range []byte{'&', '|'} {
		l, r := qat(2), qat(1)
		for i := 0; i < 40; i++ {
			l, r = &qexpr{op: o, l: l, r: qat(i % 3)}, &qexpr{op: o, l: qat((i * 5) % 6), r: r}
		}
		out = append(out, l, r, &qexpr{op: 'n', l: l})
	}
	n := qat(2)
	for i := 0; i < 21; i++ {
		n = &qexpr{op: 'n', l: n}
	}
	return append(out, n)
}

// wideCtxs are contexts with many numbers in use.
func (a *Analyzer) wideCtxs() []func() (Ctx, string) {
	fs := a.newCtxs()
	last := fs[len(fs)-1]
	many := func() (Ctx, string) {
		c := NewSpecCtx()
		c.cnfvar("earlier", 0, 0)
		c.topv = 70000
		return c, "specified context with 70000 numbers in use"
	}
	return []func() (Ctx, string){fs[0], last, many}
}

func (q *qexpr) String() string {
	switch q.op {
	case 'a':
		return q.atom().name
	case 'n':
		return "Not(" + q.l.String() + ")"
	case '&':
		return "And(" + q.l.String() + "," + q.r.String() + ")"
	}
	return "Or(" + q.l.String() + "," + q.r.String() + ")"
}

func (q *qexpr) truth(p []bool) bool {
	switch q.op {
	case 'a':
		return q.atom().truth(p)
	case 'n':
		return !q.l.truth(p)
	case '&':
		return q.l.truth(p) && q.r.truth(p)
	}
	return q.l.truth(p) || q.r.truth(p)
}

// childLog records what an oracle child returned.
type childLog struct {
	c [][]int
	n int
}

func (q *qexpr) value(a *Analyzer, log *childLog) Val {
	switch q.op {
	case 'a':
		at := q.atom()
		return oracle(at.name, func(m *Machine) (Val, Val) {
			s, c := at.enc(m)
			log.c = append(log.c, c...)
			log.n++
			return a.mkCNF(maxAbs(s, c), s, c), nil
		})
	case 'n':
		return mkStruct(a.typeOf("query/logop", "Not"), map[string]Val{"Q": q.l.value(a, log)})
	}
	name := "And"
	if q.op == '|' {
		name = "Or"
	}
	return mkStruct(a.typeOf("query/logop", name), map[string]Val{"Q1": q.l.value(a, log), "Q2": q.r.value(a, log)})
}

func qsize(q *qexpr) int {
	if q.op == 'a' {
		return 1
	}
	n := qsize(q.l)
	if q.r != nil {
		n += qsize(q.r)
	}
	return n
}

func qat(i int) *qexpr { return &qexpr{op: 'a', at: i} }

func randQ(r *rand.Rand, depth int) *qexpr {
	if depth == 0 || r.Intn(6) == 0 {
		return qat(r.Intn(len(atoms)))
	}
	switch r.Intn(3) {
	case 0:
		return &qexpr{op: 'n', l: randQ(r, depth-1)}
	case 1:
		return &qexpr{op: '&', l: randQ(r, depth-1), r: randQ(r, depth-1)}
	}
	return &qexpr{op: '|', l: randQ(r, depth-1), r: randQ(r, depth-1)}
}

// boolQueries is the family of compositions.
func boolQueries(thorough bool) []*qexpr {
	var out []*qexpr
	ops := []byte{'&', '|'}
	for i := range atoms {
		out = append(out, &qexpr{op: 'n', l: qat(i)}, &qexpr{op: 'n', l: &qexpr{op: 'n', l: qat(i)}})
		for j := range atoms {
			for _, o := range ops {
				q := &qexpr{op: o, l: qat(i), r: qat(j)}
				out = append(out, q, &qexpr{op: 'n', l: q})
				for _, o2 := range ops {
					k := (i*3 + j*5) % len(atoms)
					out = append(out, &qexpr{op: o2, l: q, r: qat(k)}, &qexpr{op: o2, l: qat(k), r: &qexpr{op: 'n', l: q}})
				}
			}
		}
	}
	r := rand.New(rand.NewSource(11))
	n := 400
	d := 4
	if thorough {
		n, d = 12000, 6
	}
	for i := 0; i < n; i++ {
		out = append(out, randQ(r, 2+i%(d-1)))
	}
	return out
}

func (a *Analyzer) newCtxs() []func() (Ctx, string) {
	fs := []func() (Ctx, string){
		func() (Ctx, string) { return NewSpecCtx(), "specified context" },
		func() (Ctx, string) {
			c := NewSpecCtx()
			c.cnfvar("earlier", 0, 0)
			c.topv = 40
			return c, "specified context with 40 numbers in use"
		},
	}
	if cs, err := a.CtxSummaries(); err == nil {
		fs = append(fs, func() (Ctx, string) { return NewRealCtx(cs), "library context" })
	}
	return fs
}

// numbers known to a context
func namedNums(c Ctx) map[int]bool {
	out := map[int]bool{}
	switch x := c.(type) {
	case *SpecCtx:
		for _, n := range x.num {
			out[int(n)] = true
		}
	case *RealCtx:
		for _, n := range x.num {
			out[int(n)] = true
		}
	}
	return out
}

func valuations(n int, f func(p []bool) bool) {
	p := make([]bool, n)
	for x := 0; x < 1<<n; x++ {
		for i := range p {
			p[i] = x>>i&1 == 1
		}
		if !f(p) {
			return
		}
	}
}

func primLits(c Ctx, p []bool) []int {
	var out []int
	var num map[triple]int64
	switch x := c.(type) {
	case *SpecCtx:
		num = x.num
	case *RealCtx:
		num = x.num
	}
	for i, b := range p {
		if n, ok := num[triple{"p", int64(i), 0}]; ok {
			if b {
				out = append(out, int(n))
			} else {
				out = append(out, -int(n))
			}
		}
	}
	return out
}

func topOp(q *qexpr) string {
	switch q.op {
	case 'n':
		return "Not"
	case '&':
		return "And"
	}
	return "Or"
}

func (a *Analyzer) encWhere(rel, name string) (fn, where string) {
	f := a.methodFn(a.typeOf(rel, name), "Encoding")
	if f == nil || a.prog.Funcs[f] == nil {
		return rel + "." + name, rel
	}
	return shortName(f), a.prog.Pos(a.prog.Funcs[f].Decl.Pos())
}

// checkBool decides P10.
func (a *Analyzer) checkBool(r *Report) {
	r.reason = "The Encoding methods of And, Or and Not (with the cnf operations they call inlined) are summarised and composed on boolean combinations of sub-queries with known formulas, including trivially true and false ones and ones with defining consistency clauses. For every valuation of the primitive variables the resulting clause set and its negation are decided against the boolean combination; the sub-queries' consistency clauses must all be among the result's."
	a.overBool(r, func(q *qexpr, c Ctx, cname string, m *Machine, s, cc [][]int, log *childLog) {
		fn, where := a.encWhere("query/logop", topOp(q))
		n := 0
		if k, ok := subset(clauseSet(log.c), clauseSet(cc)); !ok {
			r.bad("consistency kept", fn, where, fmt.Sprintf("a sub-query's consistency clause %s is lost in %s (%s)", k, q, cname))
		}
		if log.n != qsize(q) {
			r.bad("sub-queries encoded once", fn, where, fmt.Sprintf("%d sub-query encodings for %d sub-queries in %s", log.n, qsize(q), q))
		}
		base := newSatN(maxAbs(s, cc), cc)
		valuations(3, func(p []bool) bool {
			n++
			pos, neg, cons := formulaTruth(base, s, primLits(c, p))
			w := q.truth(p)
			what := ""
			switch {
			case !cons:
				what = "consistency clauses exclude a valuation of the sub-queries"
			case pos != w:
				what = fmt.Sprintf("formula is %v but the combination is %v", pos, w)
			case neg != !w:
				what = fmt.Sprintf("negated formula is %v but the combination is %v", neg, w)
			}
			if what != "" {
				r.bad("boolean meaning", fn, where, fmt.Sprintf("%s for p=%v in %s (%s)", what, p, q, cname))
				return false
			}
			return true
		})
		r.ok("boolean meaning", n)
	})
}

// overBool encodes every composition in every kind of context.
func (a *Analyzer) overBool(r *Report, f func(q *qexpr, c Ctx, cname string, m *Machine, s, cc [][]int, log *childLog)) {
	for _, n := range []string{"And", "Or", "Not"} {
		if fn := a.methodFn(a.typeOf("query/logop", n), "Encoding"); fn != nil {
			a.Summarise(fn)
		}
	}
	mk, wmk := a.newCtxs(), a.wideCtxs()
	var jobs []func()
	qs := boolQueries(r.thorough())
	nb := len(qs)
	for i, q := range append(qs, a.wideQueries(r.thorough())...) {
		if q.op == 'a' {
			continue
		}
		mk := mk
		if i >= nb {
			mk = wmk
		}
		for j, mkc := range mk {
			if i > 300 && i < nb && (i+j)%len(mk) != 0 {
				continue
			}
			q, mkc := q, mkc
			jobs = append(jobs, func() {
				r.guard(q.String(), func() {
					c, cname := mkc()
					m := NewMachine(a, 2, nil)
					m.ctx = c
					log := &childLog{}
					res, err, stop := m.Encode(q.value(a, log), ctxOV())
					r.use(m)
					if stop != nil {
						r.stop("boolean meaning", topOp(q), stop, q.String())
						return
					}
					if err != nil {
						fn, where := a.encWhere("query/logop", topOp(q))
						r.bad("boolean meaning:error", fn, where, fmt.Sprintf("encoding fails with %s in %s", vkey(err), q))
						return
					}
					_, s, cc := a.cnfParts(res)
					f(q, c, cname, m, s, cc, log)
				})
			})
		}
	}
	r.parallel(jobs)
}

// checkFresh decides P19.
func (a *Analyzer) checkFresh(r *Report) {
	r.reason = "Every composition of And, Or and Not over sub-queries with named variables is evaluated from the extracted summaries, with the numbers handed out by the context recorded at each step. Every number that occurs in a formula without having been handed out is an auxiliary: it must exceed everything handed out when it was introduced, be different from those of every other negation, and lie below everything handed out later."
	a.overBool2(r)
	// the same obligations on the negation operation itself
	a.eachNegation(r, func(fn, where, inst string, tv, req int, s, c [][]int, tv2 int, s2, c2 [][]int) {
		lim := max(tv, req)
		old := map[int]bool{}
		for _, cs := range [][][]int{s, c} {
			for _, cl := range cs {
				for _, l := range cl {
					old[max(l, -l)] = true
				}
			}
		}
		for _, cs := range [][][]int{s2, c2} {
			for _, cl := range cs {
				for _, l := range cl {
					if v := max(l, -l); !old[v] && v <= lim {
						r.bad("negation auxiliaries are new", fn, where, fmt.Sprintf("auxiliary %d does not exceed %d (%s)", v, lim, inst))
						return
					}
				}
			}
		}
		if tv2 < lim {
			r.bad("negation reports its variables", fn, where, fmt.Sprintf("top variable %d below requested %d (%s)", tv2, lim, inst))
		}
		r.ok("negation auxiliaries are new", 1)
	})
}

func (a *Analyzer) overBool2(r *Report) {
	mk, wmk := a.newCtxs(), a.wideCtxs()
	for _, n := range []string{"And", "Or", "Not"} {
		if fn := a.methodFn(a.typeOf("query/logop", n), "Encoding"); fn != nil {
			a.Summarise(fn)
		}
	}
	// an operand that asks for new names each time it is encoded
	var jobs []func()
	qs := boolQueries(r.thorough())
	nb := len(qs)
	for i, q := range append(qs, a.wideQueries(r.thorough())...) {
		if q.op == 'a' || (i%4 != 0 && i < min(1300, nb) && !r.thorough()) {
			continue
		}
		mk := mk
		if i >= nb {
			mk = wmk
		}
		for _, mkc := range mk {
			q, mkc := q, mkc
			jobs = append(jobs, func() {
				r.guard(q.String(), func() {
					c, cname := mkc()
					m := NewMachine(a, 2, nil)
					m.ctx = c
					// pending[k]: auxiliaries seen so far; each operator node is
					// encoded through the machine, which lets us look at every
					// intermediate formula
					seen := map[int]string{}
					frozen := map[int]bool{} // handed out so far
					fresh := 0
					var wrap func(x *qexpr) Val
					var where string
					consOf := map[*qexpr][][]int{}
					check := func(x *qexpr, res Val, kids map[int]bool) map[int]bool {
						fn, wh := a.encWhere("query/logop", topOp(x))
						where = wh
						tv, s, cc := a.cnfParts(res)
						_ = tv
						consOf[x] = cc
						// what the sub-formulas leave possible stays possible: no two
						// definitions bear on one auxiliary
						if len(kids) <= 9 {
							before := append([][]int{}, consOf[x.l]...)
							if x.r != nil {
								before = append(before, consOf[x.r]...)
							}
							var ks []int
							for k := range kids {
								ks = append(ks, k)
							}
							sort.Ints(ks)
							top := 0
							if len(ks) > 0 {
								top = ks[len(ks)-1]
							}
							s0, s1 := newSatN(top, before), newSatN(top, cc)
							as := make([]int, len(ks))
							for bits := 0; bits < 1<<len(ks); bits++ {
								for i, k := range ks {
									as[i] = k
									if bits>>i&1 == 0 {
										as[i] = -k
									}
								}
								if s0.solve(as...) && !s1.solve(as...) {
									r.bad("auxiliaries leave other variables free", fn, where, fmt.Sprintf("the auxiliaries of %s rule out %v, which its sub-formulas allow (%s)", x, as, cname))
									break
								}
							}
						}
						named := namedNums(c)
						vars := map[int]bool{}
						for _, cs := range [][][]int{s, cc} {
							for _, cl := range cs {
								for _, l := range cl {
									vars[max(l, -l)] = true
								}
							}
						}
						for v := range vars {
							if kids[v] {
								continue
							}
							if named[v] {
								r.bad("auxiliaries differ from named variables", fn, where, fmt.Sprintf("the auxiliary %d of %s is also a named variable (%s)", v, x, cname))
							}
							if who, ok := seen[v]; ok {
								r.bad("auxiliaries are not shared", fn, where, fmt.Sprintf("%s reuses auxiliary %d of %s (%s, in %s)", x, v, who, cname, q))
							}
							seen[v] = x.String()
						}
						// the next number handed out must be above all of them
						fresh++
						n := m.alloc("probe", int64(fresh), 0)
						for v := range vars {
							if v >= n {
								r.bad("context told about auxiliaries", fn, where, fmt.Sprintf("after %s the context hands out %d although %d is in use (%s)", x, n, v, cname))
								break
							}
						}
						if _, ok := seen[n]; ok {
							r.bad("context told about auxiliaries", fn, where, fmt.Sprintf("after %s the context hands out auxiliary %d (%s)", x, n, cname))
						}
						frozen[n] = true
						return vars
					}
					kidsOf := map[*qexpr]map[int]bool{}
					wrap = func(x *qexpr) Val {
						return oracle(x.String(), func(m *Machine) (Val, Val) {
							if x.op == 'a' {
								s, cc := x.atom().enc(m)
								vs := map[int]bool{}
								for _, cs := range [][][]int{s, cc} {
									for _, cl := range cs {
										for _, l := range cl {
											vs[max(l, -l)] = true
											if _, ok := seen[max(l, -l)]; ok {
												fn, wh := a.encWhere("query/logop", topOp(q))
												r.bad("auxiliaries differ from named variables", fn, wh, fmt.Sprintf("the context hands out the auxiliary %d again in %s (%s)", max(l, -l), q, cname))
											}
										}
									}
								}
								kidsOf[x], consOf[x] = vs, cc
								return a.mkCNF(maxAbs(s, cc), s, cc), nil
							}
							var v Val
							switch x.op {
							case 'n':
								v = mkStruct(a.typeOf("query/logop", "Not"), map[string]Val{"Q": wrap(x.l)})
							default:
								v = mkStruct(a.typeOf("query/logop", topOp(x)), map[string]Val{"Q1": wrap(x.l), "Q2": wrap(x.r)})
							}
							res, err, stop := m.Encode(v, ctxOV())
							if stop != nil {
								panic(stop)
							}
							if err != nil {
								fail("encoding fails with %s", vkey(err))
							}
							kids := map[int]bool{}
							for k := range kidsOf[x.l] {
								kids[k] = true
							}
							if x.r != nil {
								for k := range kidsOf[x.r] {
									kids[k] = true
								}
							}
							kidsOf[x] = check(x, res, kids)
							return res, nil
						})
					}
					_, _, stop := m.Encode(wrap(q), ctxOV())
					r.use(m)
					if stop != nil {
						r.stop("freshness", topOp(q), stop, q.String())
						return
					}
					r.ok("freshness", len(seen)+1)
				})
			})
		}
	}
	r.parallel(jobs)
}

// checkWithVar decides P11.
func (a *Analyzer) checkWithVar(r *Report) {
	r.reason = "WithVar.Encoding is summarised into a clause schema and instantiated for dimensions 1 to 6, in new, used, reset and scoped contexts (both the specified context and the library's extracted one). The consistency clauses must admit exactly the one-value-per-feature valuations, the semantic clauses must be those of the sub-query, and the sub-query's consistency clauses must be kept."
	wt := a.typeOf("query/logop", "WithVar")
	fn, where := a.encWhere("query/logop", "WithVar")
	maxDim := 6
	if r.thorough() {
		maxDim = 12
	}
	var jobs []func()
	dims := append(iota2(maxDim + 1)[1:], 20, 33)
	for _, n := range around(a.sizes(130, "logop", "query", "cnf")) {
		dims = append(dims, n)
	}
	for _, n := range a.narrow(260, "logop", "query", "cnf") {
		dims = append(dims, n, n+1)
	}
	for _, dim := range dims {
		for ci, mkc := range a.newCtxs() {
			for mode := 0; mode < 6; mode++ {
				dim, mkc, mode, ci := dim, mkc, mode, ci
				_ = ci
				jobs = append(jobs, func() {
					r.guard("WithVar", func() {
						c, cname := mkc()
						m := NewMachine(a, dim, nil)
						m.ctx = c
						inst := fmt.Sprintf("dim %d mode %d %s", dim, mode, cname)
						var cs, ss [][]int
						child := func(k int) Val {
							return oracle(fmt.Sprintf("body%d", k), func(m *Machine) (Val, Val) {
								var s, c [][]int
								switch k % 3 {
								case 0:
									s = [][]int{{m.alloc("q", 0, 0), -m.alloc("q", 1, 0)}, {m.alloc("q", 2, 0)}}
									c = [][]int{{m.alloc("d", 0, 0), -m.alloc("q", 0, 0)}}
								case 1:
									s = nil
								case 2:
									s = [][]int{{}}
								}
								ss = append(ss, s...)
								cs = append(cs, c...)
								return a.mkCNF(maxAbs(s, c), s, c), nil
							})
						}
						names := []string{"x"}
						var q Val
						wv := func(v string, q Val) Val { return mkStruct(wt, map[string]Val{"I": v, "Q": q}) }
						scoped := false
						switch mode {
						case 0, 1, 2:
							q = wv("x", child(mode))
						case 3: // nested declarations
							q = wv("x", wv("y", child(0)))
							names = []string{"x", "y"}
						case 4: // same variable declared twice
							q = mkStruct(a.typeOf("query/logop", "And"), map[string]Val{"Q1": wv("x", child(0)), "Q2": wv("x", child(1))})
						case 5: // inside a scope, with the same name already in use outside
							for i := 0; i < dim; i++ {
								m.alloc("x", int64(i), 0)
							}
							m.ctxOp("AddScope", "c")
							m.ctxOp("SetScope", int64(3), intVals(make([]int, dim)))
							q = wv("x", child(0))
							scoped = true
						}
						_ = scoped
						res, err, stop := m.Encode(q, ctxOV())
						r.use(m)
						if stop != nil {
							r.stop("declaration", "WithVar", stop, inst)
							return
						}
						if err != nil {
							r.bad("declaration:error", fn, where, "encoding fails with "+vkey(err)+" ("+inst+")")
							return
						}
						_, s, cc := a.cnfParts(res)
						if k, ok := subset(clauseSet(cs), clauseSet(cc)); !ok {
							r.bad("body consistency kept", fn, where, "lost consistency clause "+k+" ("+inst+")")
						}
						want, got := clauseSet(ss), clauseSet(s)
						if k, ok := subset(want, got); !ok {
							r.bad("body kept", fn, where, "lost semantic clause "+k+" ("+inst+")")
						}
						if k, ok := subset(got, want); !ok {
							r.bad("body kept", fn, where, "new semantic clause "+k+" ("+inst+")")
						}
						r.ok("body kept", 3)
						base := newSatN(maxAbs(s, cc), cc)
						for _, v := range names {
							sv := toStr(m.ctxOp("ScopeVar", v)["0"])
							for i := 0; i < dim; i++ {
								if i > 12 && i < dim-12 && i%9 > 0 {
									continue
								}
								var ls [3]int
								for f := 0; f < 3; f++ {
									ls[f] = m.alloc(sv, int64(i), int64(f))
									if ls[f] > base.n {
										r.bad("exactly one value", fn, where, fmt.Sprintf("no constraint mentions value %d of feature %d of %s (%s)", f, i, v, inst))
										return
									}
								}
								for x := 0; x < 8; x++ {
									var as []int
									n := 0
									for f := 0; f < 3; f++ {
										if x>>f&1 == 1 {
											as = append(as, ls[f])
											n++
										} else {
											as = append(as, -ls[f])
										}
									}
									sat := base.solve(as...)
									r.ok("exactly one value", 1)
									if sat != (n == 1) {
										r.bad("exactly one value", fn, where, fmt.Sprintf("feature %d of %s with %d values is possible=%v (%s)", i, v, n, sat, inst))
										return
									}
								}
							}
							// every combination of feature values stays possible
							if dim <= 4 {
								for _, vec := range vectors(dim) {
									var as []int
									for i, x := range vec {
										for f := 0; f < 3; f++ {
											l := m.alloc(sv, int64(i), int64(f))
											if f != x {
												l = -l
											}
											as = append(as, l)
										}
									}
									if !base.solve(as...) {
										r.bad("every value possible", fn, where, fmt.Sprintf("%s=%s is excluded (%s)", v, vecStr(vec), inst))
										return
									}
									r.ok("every value possible", 1)
								}
							}
						}
						if mode == 4 && m.encN["body0"] != 1 {
							r.bad("body encoded once", fn, where, inst)
						}
					})
				})
			}
		}
	}
	r.parallel(jobs)
}

// checkForAll decides P12.
func (a *Analyzer) checkForAll(r *Report) {
	r.reason = "ForAllGuarded.Encoding (with its node iterator) is summarised and evaluated on decision trees: every tree up to dimension 2 in several node numberings, samples above. The instances bound to the quantified constant while the body is encoded must be exactly the tree's node instances, one iteration index each; the result must be the conjunction of the bodies; variables declared inside must have different names in different iterations; and the scope must be closed on every way out, including body errors at every position, invalid nodes and empty models."
	ft := a.typeOf("query/logop", "ForAllGuarded")
	wt := a.typeOf("query/logop", "WithVar")
	fn, where := a.encWhere("query/logop", "ForAllGuarded")
	a.Summarise(a.methodFn(ft, "Encoding"))
	var ms []*model
	n3, n4 := 40, 10
	if r.thorough() {
		n3, n4 = 1500, 400
	}
	ms = append(ms, models(1, 0, 0)...)
	ms = append(ms, models(2, 0, 0)...)
	ms = append(ms, models(3, n3, 31)...)
	ms = append(ms, models(4, n4, 41)...)
	if r.thorough() {
		ms = append(ms, models(6, 60, 61)...)
	}
	few := len(ms)
	wide := []int{20, 70}
	if r.thorough() {
		wide = append(wide, 130)
	}
	wide = append(wide, around(a.sizes(140, "logop", "query"))...)
	for _, n := range a.narrow(260, "logop", "query") {
		wide = append(wide, n, n+1)
	}
	for _, dim := range wide {
		ms = append(ms, wideModels(dim)...)
	}
	type run struct {
		m       *model
		mode    int // 0 plain, 1 declares a variable, 2 nested, 3 error at position k, 4 false from position k on
		k       int
		mkc     func() (Ctx, string)
		prefill bool
	}
	var runs []run
	mk := a.newCtxs()
	for i, md := range ms {
		for ci, c := range mk {
			if ci == 1 {
				continue
			}
			if i >= few {
				runs = append(runs, run{m: md, mode: i % 2, mkc: c})
				continue
			}
			runs = append(runs, run{m: md, mode: 0, mkc: c}, run{m: md, mode: 1, mkc: c})
			if len(md.nodes) <= 7 && i%3 == 0 {
				runs = append(runs, run{m: md, mode: 2, mkc: c})
			}
			for _, k := range []int{0, 1, len(md.nodes) - 1} {
				if k < len(md.nodes) && i%2 == 0 {
					runs = append(runs, run{m: md, mode: 3, k: k, mkc: c})
					runs = append(runs, run{m: md, mode: 4, k: k, mkc: c})
				}
			}
		}
	}
	var jobs []func()
	for _, ru := range runs {
		ru := ru
		jobs = append(jobs, func() {
			r.guard("ForAllGuarded", func() {
				c, cname := ru.mkc()
				m := NewMachine(a, ru.m.dim, a.nodeVals(ru.m.nodes))
				m.ctx = c
				inst := fmt.Sprintf("%s, %s", ru.m.name, cname)
				if ru.mode == 3 {
					inst += fmt.Sprintf(", body fails at iteration %d", ru.k)
				}
				if ru.mode == 4 {
					inst += fmt.Sprintf(", body false at iteration %d", ru.k)
				}
				// one scope is already open
				m.ctxOp("AddScope", "outer")
				m.ctxOp("SetScope", int64(5), intVals(make([]int, ru.m.dim)))
				m.ctxOp("AddVar", "w")
				got := map[string]int{}
				var wantS, wantC [][]int
				calls := 0
				names := map[string]string{}
				ids := []string{"c"}
				if ru.mode == 2 {
					ids = append(ids, "c2")
				}
				body := oracle("body", func(m *Machine) (Val, Val) {
					if ru.mode == 3 && calls == ru.k {
						calls++
						return a.mkCNF(0, nil, nil), &EV{kind: "body error"}
					}
					calls++
					key := ""
					for _, id := range ids {
						res := m.ctxOp("ScopeConst", a.qconst(id, nil))
						q, _ := res["0"].(*SV)
						if ok, _ := res["1"].(bool); !ok || q == nil {
							r.bad("constant bound", fn, where, "the quantified constant is not bound while its body is encoded ("+inst+")")
							return a.mkCNF(0, nil, nil), nil
						}
						key += a.constStr(q) + "/"
					}
					got[key]++
					if ru.mode == 1 {
						n := toStr(m.ctxOp("ScopeVar", "y")["0"])
						if other, ok := names[n]; ok {
							r.bad("iterations kept apart", fn, where, fmt.Sprintf("variable y is named %q for both %s and %s (%s)", n, other, key, inst))
						}
						names[n] = key
						if n2 := toStr(m.ctxOp("ScopeVar", "w")["0"]); strings.Contains(n2, "c") && !strings.Contains(n2, "outer") {
							r.bad("outer variables unaffected", fn, where, fmt.Sprintf("w is named %q (%s)", n2, inst))
						}
					}
					p := m.alloc("b"+key, 0, 0)
					d := m.alloc("d"+key, 0, 0)
					s := [][]int{{p}, {-p, d}}
					cs := [][]int{{d, -p}, {p, -d}}
					if calls%4 == 0 {
						s = nil
					}
					if ru.mode == 4 && calls == ru.k+1 {
						s = append(s, []int{})
					}
					wantS = append(wantS, s...)
					wantC = append(wantC, cs...)
					return a.mkCNF(maxAbs(s, cs), s, cs), nil
				})
				var q Val = body
				if ru.mode == 1 {
					q = mkStruct(wt, map[string]Val{"I": "y", "Q": body})
				}
				if ru.mode == 2 {
					q = mkStruct(ft, map[string]Val{"I": a.qconst("c2", nil), "Q": q})
				}
				q = mkStruct(ft, map[string]Val{"I": a.qconst("c", nil), "Q": q})
				res, err, stop := m.Encode(q, ctxOV())
				r.use(m)
				if stop != nil {
					r.stop("guarded quantifier", "ForAllGuarded", stop, inst)
					return
				}
				a.scopeClosed(r, m, fn, where, inst)
				if ru.mode == 3 {
					if err == nil {
						r.bad("error reported", fn, where, "the body's error is lost ("+inst+")")
					}
					r.ok("scope closed on error", 1)
					return
				}
				if err != nil {
					r.bad("guarded quantifier:error", fn, where, "encoding a valid query fails with "+vkey(err)+" ("+inst+")")
					return
				}
				if ru.mode == 4 {
					// the result is false whatever follows; what the bodies
					// defined along the way has to stay, as later parts of the
					// query may rely on it
					_, s, cc := a.cnfParts(res)
					if newSat(s, cc).solve() {
						r.bad("conjunction of bodies", fn, where, "the conjunction with a false body is satisfiable ("+inst+")")
					}
					if k, ok := subset(clauseSet(wantC), clauseSet(cc)); !ok {
						r.bad("conjunction of bodies", fn, where, "a body's consistency clause "+k+" is lost ("+inst+")")
					}
					r.ok("conjunction with a false body", 2)
					return
				}
				want := map[string]int{}
				ins := ru.m.t.instances(ru.m.dim)
				for _, x := range ins {
					if ru.mode == 2 {
						for _, y := range ins {
							want[vecStr(x)+"/"+vecStr(y)+"/"]++
						}
					} else {
						want[vecStr(x)+"/"]++
					}
				}
				for k, n := range want {
					if got[k] != n {
						r.bad("every node once", fn, where, fmt.Sprintf("node instance %s is covered %d times (%s)", k, got[k], inst))
						break
					}
				}
				for k := range got {
					if want[k] == 0 {
						r.bad("only nodes", fn, where, fmt.Sprintf("%s is not the instance of a node (%s)", k, inst))
						break
					}
				}
				r.ok("every node once", len(want))
				_, s, cc := a.cnfParts(res)
				if k, ok := subset(clauseSet(wantS), clauseSet(s)); !ok {
					r.bad("conjunction of bodies", fn, where, "a body's semantic clause "+k+" is lost ("+inst+")")
				}
				if k, ok := subset(clauseSet(s), clauseSet(wantS)); !ok {
					r.bad("conjunction of bodies", fn, where, "extra semantic clause "+k+" ("+inst+")")
				}
				if k, ok := subset(clauseSet(wantC), clauseSet(cc)); !ok {
					r.bad("conjunction of bodies", fn, where, "a body's consistency clause "+k+" is lost ("+inst+")")
				}
				if ru.mode != 1 {
					if k, ok := subset(clauseSet(cc), clauseSet(wantC)); !ok {
						r.bad("conjunction of bodies", fn, where, "extra consistency clause "+k+" ("+inst+")")
					}
				}
				r.ok("conjunction of bodies", 1)
			})
		})
	}
	// ways out before and during the walk
	for _, bad := range badModels() {
		for ci, mkc := range mk {
			if ci == 1 {
				continue
			}
			bad, mkc := bad, mkc
			jobs = append(jobs, func() {
				r.guard("ForAllGuarded", func() {
					c, cname := mkc()
					var nv []Val
					if bad.nodes != nil {
						nv = a.nodeVals(bad.nodes)
					}
					m := NewMachine(a, bad.dim, nv)
					m.ctx = c
					m.ctxOp("AddScope", "outer")
					m.ctxOp("SetScope", int64(5), intVals(make([]int, bad.dim)))
					m.ctxOp("AddVar", "w")
					q := mkStruct(ft, map[string]Val{"I": a.qconst("c", nil), "Q": oracle("body", func(m *Machine) (Val, Val) { return a.mkCNF(0, nil, nil), nil })})
					_, _, stop := m.Encode(q, ctxOV())
					r.use(m)
					if stop != nil {
						if stop.kind == "undecided" {
							r.undecided(stop.msg)
						}
						return // panics are reported under input validation
					}
					a.scopeClosed(r, m, fn, where, bad.name+", "+cname)
					r.ok("scope closed on error", 1)
				})
			})
		}
	}
	r.parallel(jobs)
}

// scopeClosed checks that exactly the scope opened by the caller is left.
func (a *Analyzer) scopeClosed(r *Report, m *Machine, fn, where, inst string) {
	if res := m.ctxOp("ScopeConst", a.qconst("c", nil)); res["1"] == true {
		r.bad("scope closed", fn, where, "the quantifier's scope is still open ("+inst+")")
		return
	}
	if res := m.ctxOp("ScopeConst", a.qconst("outer", nil)); res["1"] != true {
		r.bad("scope closed", fn, where, "a scope of the caller was closed ("+inst+")")
		return
	}
	if res := m.ctxOp("PopScope"); res["0"] != nil {
		r.bad("scope closed", fn, where, "the scope stack is inconsistent ("+inst+")")
	}
	if res := m.ctxOp("PopScope"); res["0"] == nil {
		r.bad("scope closed", fn, where, "more scopes are open than the caller opened ("+inst+")")
	}
	r.ok("scope closed", 1)
}

// constStr renders a constant value by field name.
func (a *Analyzer) constStr(q *SV) string {
	st := q.typ.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "Val" {
			var v []int
			for _, x := range toSeq(q.f[i]) {
				v = append(v, int(x.(int64)))
			}
			return vecStr(v)
		}
	}
	return "?"
}

type badModel struct {
	name  string
	dim   int
	nodes []Node
	empty bool
}

func badModels() []badModel {
	lf := Node{Feat: -1, ZChild: -1, OChild: -1}
	lt := Node{Value: true, Feat: -1, ZChild: -1, OChild: -1}
	in := func(f, z, o int) Node { return Node{Feat: f, ZChild: z, OChild: o} }
	return []badModel{
		{name: "nil nodes", dim: 2, empty: true},
		{name: "no nodes", dim: 2, nodes: []Node{}, empty: true},
		{name: "root feature too large", dim: 2, nodes: []Node{in(2, 1, 2), lf, lt}},
		{name: "root feature negative", dim: 2, nodes: []Node{in(-1, 1, 2), lf, lt}},
		{name: "inner feature too large", dim: 2, nodes: []Node{in(0, 1, 2), lf, in(5, 3, 4), lf, lt}},
		{name: "inner feature negative", dim: 2, nodes: []Node{in(0, 1, 2), in(-3, 3, 4), lf, lf, lt}},
		{name: "zero child out of range", dim: 2, nodes: []Node{in(0, 7, 2), lf, lt}},
		{name: "one child out of range", dim: 2, nodes: []Node{in(0, 1, 3), lf, lt}},
		{name: "inner zero child out of range", dim: 2, nodes: []Node{in(0, 1, 2), in(1, 9, 3), lf, lt}},
		{name: "inner one child out of range", dim: 2, nodes: []Node{in(0, 1, 2), lf, in(1, 3, 4), lt}},
		{name: "last feature too large", dim: 1, nodes: []Node{in(1, 1, 2), lf, lt}},
		{name: "zero child just out of range", dim: 2, nodes: []Node{in(0, 3, 2), lf, lt}},
		{name: "one child far out of range", dim: 2, nodes: []Node{in(0, 1, 1<<40), lf, lt}},
		{name: "inner zero child just out of range", dim: 2, nodes: []Node{in(0, 1, 2), in(1, 5, 3), lf, lt, lf}},
		{name: "inner one child just out of range", dim: 2, nodes: []Node{in(0, 1, 2), in(1, 3, 5), lf, lt, lf}},
		{name: "a lone split without zero child", dim: 1, nodes: []Node{in(0, 2, 1)}},
		{name: "a lone split without children", dim: 1, nodes: []Node{in(0, 1, 1)}},
		{name: "a lone split on a missing feature", dim: 1, nodes: []Node{in(1, 2, 3)}},
		{name: "a last node with feature far out of range", dim: 3, nodes: []Node{in(0, 1, 2), in(1, 3, 4), lf, lt, in(2, 5, 6), lf, in(1<<33, 7, 8), lf, lt}},
		{name: "two split nodes with a missing feature", dim: 2, nodes: []Node{in(0, 1, 2), in(2, 3, 4), in(2, 5, 6), lf, lt, lt, lf}},
	}
}
