package main

import (
	"fmt"
	"math/rand"
	"path"
	"strings"
)

// randCall draws a context operation.
func randCall(rd *rand.Rand) ctxCall {
	t := hardTriples[rd.Intn(len(hardTriples))]
	v := []string{"x", "y", "x1"}[rd.Intn(3)]
	id := []string{"c", "c1", "d"}[rd.Intn(3)]
	switch w := rd.Intn(100); {
	case w < 25:
		return cnfCalls("CNFVar", t)[0]
	case w < 32:
		return cnfCalls("CNFVarExists", t)[0]
	case w < 42:
		return ctxCall{"UpdateTopV", []Val{int64(rd.Intn(40))}}
	case w < 46:
		return ctxCall{"TopV", nil}
	case w < 60:
		return ctxCall{"AddScope", []Val{id}}
	case w < 70:
		return ctxCall{"SetScope", []Val{int64(rd.Intn(12)), someVal(int64(rd.Intn(3)), 1)}}
	case w < 76:
		return ctxCall{"PopScope", nil}
	case w < 88:
		return ctxCall{"AddVar", []Val{v}}
	default:
		return ctxCall{"ScopeVar", []Val{v}}
	}
}

// differs compares a context with a new one by what can be observed; empty if
// they agree on everything tried.
func (a *Analyzer) differs(cs *CtxSums, c *RealCtx, trials int, hist []ctxCall) (string, *Stop) {
	fresh := NewRealCtx(cs)
	if fresh.key() == c.key() {
		return "", nil
	}
	m := NewMachine(a, 2, nil)
	ct := a.typeOf("query", "QConst")
	norm := func(op string, res []Val) string {
		var s []string
		for _, v := range res {
			if e, ok := v.(*EV); ok {
				_ = e
				s = append(s, "error")
				continue
			}
			s = append(s, vkey(v))
		}
		return strings.Join(s, ",")
	}
	// what the history mentions
	if len(hist) > 0 {
		x, y := fresh.clone(), c.clone()
		var probes []ctxCall
		done := map[string]bool{}
		for _, h := range hist {
			p := h
			switch h.op {
			case "CNFVar", "CNFVarExists":
				p.op = "CNFVarExists"
			case "AddVar", "ScopeVar":
				p.op = "ScopeVar"
			case "AddScope":
				p = ctxCall{"ScopeConst", []Val{mkStruct(ct, map[string]Val{"ID": h.args[0]})}}
			default:
				continue
			}
			if k := p.String(); !done[k] {
				done[k] = true
				probes = append(probes, p)
			}
		}
		for pass := 0; pass < 2; pass++ {
			for _, p := range probes {
				if pass == 1 && p.op == "CNFVarExists" {
					p.op = "CNFVar"
				}
				r1, s1 := x.op(m, p.op, p.args...)
				r2, s2 := y.op(m, p.op, p.args...)
				if s1 != nil || s2 != nil {
					break
				}
				if norm(p.op, r1) != norm(p.op, r2) {
					return fmt.Sprintf("%s gives %s instead of %s", p, norm(p.op, r2), norm(p.op, r1)), nil
				}
			}
		}
	}
	for i := 0; i < trials; i++ {
		x, y := fresh.clone(), c.clone()
		rd := rand.New(rand.NewSource(int64(i)))
		var calls []ctxCall
		for k := 0; k < 25; k++ {
			cl := randCall(rd)
			if k%5 == 4 {
				id := []string{"c", "c1", "d"}[rd.Intn(3)]
				cl = ctxCall{"ScopeConst", []Val{mkStruct(ct, map[string]Val{"ID": id})}}
			}
			if i < 8 && k < 4 {
				cl = []ctxCall{{"TopV", nil}, {"PopScope", nil}, {"ScopeVar", []Val{"x"}}, {"CNFVar", []Val{"x", int64(i), int64(1)}}}[k]
			}
			calls = append(calls, cl)
			r1, s1 := x.op(m, cl.op, cl.args...)
			r2, s2 := y.op(m, cl.op, cl.args...)
			if s1 != nil && s1.kind != "panic" {
				return "", s1
			}
			if s2 != nil && s2.kind != "panic" {
				return "", s2
			}
			if (s1 == nil) != (s2 == nil) {
				return callsStr(calls) + " panics on only one of them", nil
			}
			if s1 != nil {
				break
			}
			if norm(cl.op, r1) != norm(cl.op, r2) {
				return fmt.Sprintf("%s gives %s instead of %s", callsStr(calls), norm(cl.op, r2), norm(cl.op, r1)), nil
			}
		}
	}
	return "", nil
}

// checkReset decides P22.
func (a *Analyzer) checkReset(r *Report) {
	r.reason = "The context's operations are summarised to transfer functions; after every pseudo-random history, composing Reset must yield the initial state (or, if the representations differ, a state that a battery of operation sequences cannot tell from it). The summaries of QDTFAtom.Sat and ComputeOptim are composed with those of Step, Values, the operators and the context: whatever the context and the solver were used for before, each query must be encoded in a context that cannot be told from a new one, values must be read in the context the query was encoded in, and the outcome must be that of a fresh evaluation. Writes to package-level variables in package compute are violations."
	cs, err := a.CtxSummaries()
	if err != nil {
		r.undecided(err.Error())
		return
	}
	rs := cs.methods["Reset"]
	n := 150
	if r.thorough() {
		n = 2500
	}
	var jobs []func()
	for i := 0; i < n; i++ {
		i := i
		jobs = append(jobs, func() {
			rd := rand.New(rand.NewSource(int64(i)*13 + r.seed))
			x := a.newCtxRun(r, cs)
			for k := 0; k < 1+i%40; k++ {
				c := randCall(rd)
				if _, ok := x.do(c.op, c.args...); !ok {
					return
				}
				if i%3 == 2 && k%9 == 8 {
					x.do("Reset")
				}
			}
			if _, ok := x.do("Reset"); !ok {
				return
			}
			msg, stop := a.differs(cs, x.c, 40, x.seq)
			if stop != nil {
				r.stop("reset", rs.name, stop, callsStr(x.seq))
				return
			}
			if msg != "" {
				x.bad("reset", "Reset", "the context can be told from a new one: %s", msg)
			}
			r.ok("reset", 1)
		})
	}
	// large histories
	counts := append([]int{20, 60, 150, 330}, around(a.sizes(3000, "query"))...)
	for j := 0; j < 6*len(counts); j++ {
		i, count := j%6, counts[j/6]
		jobs = append(jobs, func() {
			x := a.newCtxRun(r, cs)
			for k := 0; k < count; k++ {
				c := cnfCalls("CNFVar", triple{"x", int64(k / 3), int64(k % 3)})[0]
				switch {
				case i == 1 && k%2 == 0:
					c = ctxCall{"AddScope", []Val{fmt.Sprint("c", k)}}
				case i == 1:
					c = ctxCall{"SetScope", []Val{int64(k), someVal(1, 0)}}
				case i == 2 && k%3 == 0:
					c = ctxCall{"AddVar", []Val{fmt.Sprint("v", k)}}
				case i == 2 && k == 1:
					c = ctxCall{"AddScope", []Val{"c"}}
				case i == 3 && k%7 == 0:
					c = ctxCall{"UpdateTopV", []Val{int64(1) << (k / 7 % 40)}}
				case i == 4:
					c = cnfCalls("CNFVarExists", triple{"x", int64(k / 3), int64(k % 3)})[0]
				case i == 5 && k%50 == 49:
					c = ctxCall{"Reset", nil}
				}
				if _, ok := x.do(c.op, c.args...); !ok {
					return
				}
			}
			if _, ok := x.do("Reset"); !ok {
				return
			}
			msg, stop := a.differs(cs, x.c, 40, x.seq)
			if stop != nil {
				r.stop("reset", rs.name, stop, callsStr(x.seq))
				return
			}
			if msg != "" {
				x.bad("reset", "Reset", "the context can be told from a new one: %s", msg)
			}
			r.ok("reset", 1)
		})
	}
	solver, serr := a.newSolver()
	if serr != nil {
		r.undecided(serr.Error())
		r.parallel(jobs)
		return
	}
	_, afn, awhere := a.computeFn(r, "QDTFAtom", "Sat")
	_, ofn, owhere := a.computeFn(r, "", "ComputeOptim")
	qt := a.typeOf("compute", "QDTFAtom")
	wt := a.typeOf("query/logop", "WithVar")
	xs := optInstances(r.thorough())
	hist := 12
	if r.thorough() {
		hist = 60
	}
	for h := 0; h < hist; h++ {
		h := h
		jobs = append(jobs, func() {
			rd := rand.New(rand.NewSource(int64(h)*101 + r.seed))
			dim := 1 + h%2
			c := a.realCtx()
			w := a.newWorld(dim, nil, c)
			w.solver = solver
			seed := int64(h)
			w.verdict = func(w *world, text string) (int64, string, bool) {
				code, out := solveText(text, seed)
				return code, out, false
			}
			cur, curFn, curWhere, inst := "", "", "", ""
			dirty := ""
			w.onEnc = func(w *world) {}
			probe := func(m *Machine) {
				// called when the query itself starts being encoded
				if msg, stop := a.differs(cs, c, 12, nil); stop == nil && msg != "" && dirty == "" {
					dirty = msg
				}
			}
			first := true
			w.m.fnv = nil
			w.onEnc = func(w *world) {
				if first {
					first = false
					probe(w.m)
				}
			}
			base := w.m.on
			w.m.on = func(m *Machine, name string, args []Val, it *Item) (map[string]Val, bool) {
				if name == "step" {
					first = true
				}
				return base(m, name, args, it)
			}
			for k := 0; k < 4; k++ {
				dirty = ""
				// use the context in between, too
				for j := rd.Intn(6); j > 0; j-- {
					cl := randCall(rd)
					if _, stop := c.op(w.m, cl.op, cl.args...); stop != nil {
						return
					}
				}
				// the query, evaluated here and in new surroundings
				x := xs[rd.Intn(len(xs))]
				for x.dim != dim {
					x = xs[rd.Intn(len(xs))]
				}
				neg := rd.Intn(2) == 0
				optim := rd.Intn(2) == 0
				v := []string{"x", "y"}[rd.Intn(2)]
				eval := func(w *world) (string, *Stop) {
					if optim {
						o, stop := w.optimum(x, v)
						return o.String(), stop
					}
					q := mkStruct(wt, map[string]Val{"I": v, "Q": oracle("q", func(m *Machine) (Val, Val) {
						return exclude(a, m, v, x.dim, func(u []int) bool { return x.in[vecStr(u)] }), nil
					})})
					at := mkStruct(qt, map[string]Val{"Query": q, "Negated": neg})
					var b, e Val
					stop := try(func() { b, e = w.doSat(at, ctxOV(), &OV{name: "solver"}) })
					return vkey(b) + vkey(e), stop
				}
				cur, curFn, curWhere = "Sat", afn, awhere
				if optim {
					cur, curFn, curWhere = "ComputeOptim", ofn, owhere
				}
				inst = fmt.Sprintf("%s, evaluation %d of history %d", x.name, k+1, h)
				got, stop := eval(w)
				r.use(w.m)
				if stop != nil {
					r.stop("fresh evaluation", curFn, stop, inst)
					return
				}
				w2 := a.newWorld(dim, nil, a.realCtx())
				w2.solver = solver
				w2.verdict = w.verdict
				want, stop := eval(w2)
				if stop != nil {
					r.stop("fresh evaluation", curFn, stop, inst)
					return
				}
				r.ok("fresh evaluation", 1)
				if dirty != "" {
					r.bad("context as new", curFn, curWhere, fmt.Sprintf("%s encodes a query in a context that earlier use has left traces in: %s (%s)", cur, dirty, inst))
				}
				if got != want && dirty == "" {
					r.bad("same answer", curFn, curWhere, fmt.Sprintf("%s gives %s in a used context and %s in a new one (%s)", cur, got, want, inst))
				}
			}
		})
	}
	// what a function leaves in a package-level variable that is read
	// elsewhere outlives every reset
	gws := a.globalWrites()
	reads := a.globalReads(gws)
	for _, gw := range gws {
		if path.Base(path.Dir(strings.TrimPrefix(gw.where, "/"))) == "compute" || reads[gw.v] > 0 {
			r.bad("no hidden state", gw.fn, gw.where, "writes package-level variable "+gw.what+", which no reset restores")
		}
	}
	r.ok("no hidden state", len(a.libFuncs()))
	r.parallel(jobs)
}
