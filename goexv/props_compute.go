package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/rand"
	"path"
	"strings"
)

// Properties of package compute, decided by composing the summaries of its
// functions with a model of files, the solver process and the interfaces.

func (a *Analyzer) computeFn(r *Report, typ, name string) (fn *types.Func, sn, where string) {
	if typ == "" {
		fn = a.prog.Func("compute", name)
	} else if typ == "Solver" {
		t, err := a.solverType()
		if err != nil {
			fail("%s", err)
		}
		fn = a.methodFn(t, name)
	} else {
		fn = a.methodFn(a.typeOf("compute", typ), name)
	}
	if fn == nil {
		fail("compute.%s.%s not found", typ, name)
	}
	s := a.Summarise(fn)
	m := NewMachine(a, 1, nil)
	m.used[s] = true
	r.use(m)
	sn, where = a.fnWhere(fn)
	return
}

func (a *Analyzer) unsat() Val { return a.globalVal("compute", "UnsatError") }

// testForm is a formula over numbers handed out by the context.
type testForm struct {
	s, c [][]int
	dim  int
}

var testForms = []testForm{
	{nil, nil, 1},
	{[][]int{{1}}, nil, 1},
	{[][]int{{1, 2}, {-1, 3}}, [][]int{{2, 3}, {-2, -3}}, 1},
	{[][]int{{}}, [][]int{{1, -2, 3}}, 1},
	{[][]int{{4, -5, 6}, {-6}, {1, 2, 3}, {1, 2, 3}}, [][]int{{-1, -4}, {5}}, 2},
	{nil, [][]int{{1, 2, 3}, {-1, -2}, {-1, -3}, {-2, -3}, {10, 11, 12}, {-10, 11}}, 4},
}

// formQuery is a sub-query with the formula, over variable x.
func (w *world) formQuery(name string, f testForm) Val {
	return oracle(name, func(m *Machine) (Val, Val) {
		var nums []int
		for i := 0; i < f.dim; i++ {
			for v := 0; v < 3; v++ {
				nums = append(nums, m.alloc("x", int64(i), int64(v)))
			}
		}
		tr := func(cs [][]int) [][]int {
			if cs == nil {
				return nil
			}
			out := make([][]int, len(cs))
			for i, c := range cs {
				out[i] = []int{}
				for _, l := range c {
					if l > 0 {
						out[i] = append(out[i], nums[l-1])
					} else {
						out[i] = append(out[i], -nums[-l-1])
					}
				}
			}
			return out
		}
		s, c := tr(f.s), tr(f.c)
		return w.a.mkCNF(maxAbs(s, c), s, c), nil
	})
}

func (a *Analyzer) realCtx() *RealCtx {
	cs, err := a.CtxSummaries()
	if err != nil {
		fail("%s", err)
	}
	return NewRealCtx(cs)
}

// xOutput is the solver's account of a valuation giving variable x of the
// context the feature values vs (-1: no value true).
func xLits(c Ctx, q string, vs []int) []int {
	var out []int
	for i, v := range vs {
		for k := 0; k < 3; k++ {
			n := int(c.cnfvar(q, int64(i), int64(k)))
			if k != v {
				n = -n
			}
			out = append(out, n)
		}
	}
	return out
}

func byNumber(lits []int) []int {
	out := append([]int{}, lits...)
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if maxAbs([][]int{{out[j]}}) < maxAbs([][]int{{out[i]}}) {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

func constVec(a *Analyzer, v Val) []int {
	sv, ok := v.(*SV)
	if !ok {
		fail("constant expected, got %s", vkey(v))
	}
	u := under(sv.typ).(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == "Val" {
			out := []int{}
			for _, x := range toSeq(sv.f[i]) {
				out = append(out, int(x.(int64)))
			}
			return out
		}
	}
	fail("constant without values")
	return nil
}

func constID(v Val) string {
	if sv, ok := v.(*SV); ok {
		u := under(sv.typ).(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "ID" {
				s, _ := sv.f[i].(string)
				return s
			}
		}
	}
	return ""
}

// checkVerdict decides P23.
func (a *Analyzer) checkVerdict(r *Report) {
	r.reason = "The solver's Step is summarised, with the file writer and the process runner inlined, to a sequence of guarded effects (create, encode, write, run, remove) and its result and new state as terms over their outcomes. It is evaluated for formulas of several shapes, every exit code class, a process that cannot run, and a failure of each effect in turn: success only for exit code 10, the unsatisfiability sentinel only for 20, any other error otherwise; what the process is started on must be exactly the query's formula; and over every sequence of up to three outcomes Values must report the last satisfiable one's output."
	_, fn, where := a.computeFn(r, "Solver", "Step")
	_, vfn, vwhere := a.computeFn(r, "Solver", "Values")
	a.checkReuse(r, "recorded output in storage of its own", "compute")
	solver, err := a.newSolver()
	if err != nil {
		r.undecided(err.Error())
		return
	}
	unsat := a.unsat()
	codes := []int64{10, 20, 0, 1, 2, 9, 11, 19, 21, 30, 120, 127, 128, 137, 139, 255, -1}
	verdictOf := func(inst string, e Val, faulted bool, code int64, cannot bool, ign bool) {
		r.ok("verdict", 1)
		isU := e != nil && errIsV(e, unsat)
		switch {
		case faulted || cannot || code != 10 && code != 20:
			if ign && e == nil && code == 10 {
				return
			}
			if e == nil {
				r.bad("verdict:success", fn, where, "reports success ("+inst+")")
			} else if isU && !(ign && code == 20) {
				r.bad("verdict:unsatisfiable", fn, where, "reports the query unsatisfiable ("+inst+")")
			}
		case code == 10:
			if e != nil {
				r.bad("verdict:satisfiable", fn, where, "a satisfiable outcome is reported as "+vkey(e)+" ("+inst+")")
			}
		case code == 20:
			if !isU {
				r.bad("verdict:unsat lost", fn, where, "an unsatisfiable outcome is reported as "+vkey(e)+" ("+inst+")")
			}
		}
	}
	var jobs []func()
	for fi, f := range testForms {
		for _, code := range append(codes, 1000) {
			fi, f, code := fi, f, code
			jobs = append(jobs, func() {
				nf := -1
				for failAt := -1; failAt <= nf; failAt++ {
					if failAt >= 0 && (fi > 2 || code != 10 && code != 20) && !r.thorough() {
						return
					}
					c := a.realCtx()
					w := a.newWorld(f.dim, nil, c)
					w.failAt = failAt
					w.solver = solver
					cannot := code == 1000
					w.verdict = func(w *world, text string) (int64, string, bool) {
						switch {
						case fi%4 == 1:
							return code, "", cannot
						case fi%4 == 2:
							return code, "s SATISFIABLE\nv 1 -2 3 0\n", cannot
						case fi%4 == 3 && code == 10:
							return code, "c not UNSATISFIABLE\ns SATISFIABLE\nv 1 -2 3 0\nc exit 20\n", cannot
						case fi%4 == 3 && code == 20:
							return code, "c not SATISFIABLE\ns UNSATISFIABLE\nc exit 10\nv\n", cannot
						}
						return code, "v 1 -2 3 0\n", cannot
					}
					w.mute = fi%2 == 0
					inst := fmt.Sprintf("exit code %d, formula %d", code, fi)
					if cannot {
						inst = "the process cannot be run"
					}
					var e Val
					if stop := try(func() { e = w.doStep(w.formQuery("q", f), ctxOV()) }); stop != nil {
						r.stop("verdict", fn, stop, inst)
						r.use(w.m)
						return
					}
					r.use(w.m)
					if failAt < 0 {
						nf = w.n - 1
					}
					ign := w.failed && (w.what == "file.Close" || w.what == "os.Remove" || w.what == "file.Sync" || w.what == "os.RemoveAll")
					if w.failed {
						inst = "failing " + w.what + ", " + inst
					}
					verdictOf(inst, e, w.failed, code, cannot, ign)
					if failAt >= 0 {
						continue
					}
					// the process ran once, on the query's own formula
					if len(w.runs) == 0 {
						r.bad("formula solved", fn, where, "the solver process is not run ("+inst+")")
						continue
					}
					s, cc := f.s, f.c
					rn := w.runs[len(w.runs)-1]
					if rn.path != solverPath || len(rn.args) == 0 || rn.args[0] != solverPath {
						r.bad("solver run", fn, where, fmt.Sprintf("runs %q with %q instead of the configured solver", rn.path, rn.args))
					}
					if rn.file == "" {
						r.bad("formula solved", fn, where, fmt.Sprintf("the solver is not given the file with the formula: %q", rn.args))
						continue
					}
					if msg := dimacs(rn.text, append(append([][]int{}, s...), cc...)); msg != "" {
						r.bad("formula solved", fn, where, "the solver is run on another formula: "+msg+" ("+inst+")")
					}
					r.ok("formula solved", 1)
				}
			})
		}
	}
	// recorded valuations
	outs := []struct {
		name string
		code int64
		vals []int
		mode int // 1 values only, 2 no values, 3 a value missing
	}{
		{"sat 10", 10, []int{1, 0}, 0}, {"sat 21", 10, []int{2, 1}, 0}, {"sat 22", 10, []int{2, 2}, 1},
		{"unsat", 20, []int{0, 0}, 0}, {"exit 1", 1, []int{0, 2}, 0}, {"exit 0", 0, []int{0, 1}, 0},
		{"sat with no value lines", 10, []int{0, 0}, 2}, {"sat with values missing", 10, []int{0, 1}, 3},
	}
	depth := 3
	if r.thorough() {
		depth = 4
	}
	var seqs [][]int
	var rec func(cur []int)
	rec = func(cur []int) {
		if len(cur) > 0 {
			seqs = append(seqs, cur)
		}
		if len(cur) == depth {
			return
		}
		for i := 0; i <= len(outs); i++ {
			rec(append(append([]int{}, cur...), i))
		}
	}
	rec(nil)
	for _, sq := range seqs {
		sq := sq
		jobs = append(jobs, func() {
			c := a.realCtx()
			w := a.newWorld(2, nil, c)
			w.solver = solver
			cur := 0
			w.verdict = func(w *world, text string) (int64, string, bool) {
				lits := byNumber(xLits(c, "x", outs[cur].vals))
				switch outs[cur].mode {
				case 1:
					return outs[cur].code, vLines(lits, 4), false
				case 2:
					return outs[cur].code, "s SATISFIABLE\nc no values\n", false
				case 3:
					return outs[cur].code, "s SATISFIABLE\n" + vLines(lits[:3], 4), false
				}
				return outs[cur].code, "s X\n" + vLines(lits, 4), false
			}
			var last []int
			broken := false
			var names []string
			q := w.formQuery("q", testForm{dim: 2})
			for _, k := range sq {
				w.failAt = -1
				if k == len(outs) {
					w.failAt = w.n + 1
					names = append(names, "failure")
					cur = 0
				} else {
					cur = k
					names = append(names, outs[k].name)
				}
				var e Val
				w.failed = false
				if stop := try(func() { e = w.doStep(q, ctxOV()) }); stop != nil {
					r.stop("recorded valuation", fn, stop, strings.Join(names, ", "))
					return
				}
				if k < len(outs) && outs[k].code == 10 && e == nil {
					last, broken = outs[k].vals, outs[k].mode > 1
				}
			}
			w.failAt = -1
			var v, e Val
			if stop := try(func() { v, e = w.doValues([]Val{"x"}, ctxOV()) }); stop != nil {
				r.stop("recorded valuation", vfn, stop, strings.Join(names, ", "))
				return
			}
			r.use(w.m)
			r.ok("recorded valuation", 1)
			inst := "after outcomes " + strings.Join(names, ", ")
			if broken {
				if e == nil {
					r.bad("recorded valuation", vfn, vwhere, fmt.Sprintf("reports %s, which is not in the last satisfiable step's output (%s)", vecStr(constVec(a, toSeq(v)[0])), inst))
				}
				return
			}
			if last == nil {
				if e == nil {
					r.bad("recorded valuation", fn, where, "a valuation is reported though no step succeeded ("+inst+")")
				}
				return
			}
			if e != nil {
				r.bad("recorded valuation", fn, where, "the last satisfiable step's valuation is lost: "+vkey(e)+" ("+inst+")")
				return
			}
			if got := constVec(a, toSeq(v)[0]); !eqLen(got, last) {
				r.bad("recorded valuation", fn, where, fmt.Sprintf("the valuation reported is %s instead of %s, that of the last satisfiable step (%s)", vecStr(got), vecStr(last), inst))
			}
		})
	}
	r.parallel(jobs)
}

func eqLen(a, b []int) bool { return len(a) == len(b) && eqV(a, b) }

// checkValuesRead decides P26.
func (a *Analyzer) checkValuesRead(r *Report) {
	r.reason = "Values is summarised (output parsing and variable filter inlined) to a term over the recorded output and the context. It is evaluated on contexts with several numberings and on outputs that spread the valuation over value lines in many layouts: the constants must have one entry per feature and the value whose variable is true; outputs that are missing, unreadable or leave a feature undecided must give an error."
	_, fn, where := a.computeFn(r, "Solver", "Values")
	a.computeFn(r, "Solver", "Step")
	a.checkReuse(r, "values in storage of their own", "compute")
	solver, err := a.newSolver()
	if err != nil {
		r.undecided(err.Error())
		return
	}
	type scen struct {
		dim   int
		seed  int64
		extra int
		mode  int
	}
	var scens []scen
	n := 60
	if r.thorough() {
		n = 600
	}
	for i := 0; i < n; i++ {
		scens = append(scens, scen{1 + i%4, int64(i), []int{0, 2, 9, 95}[i%4], i % 12})
	}
	for i := 0; i < n/6; i++ {
		scens = append(scens, scen{1 + i%3, int64(i), []int{0, 1, 9}[i%3], 12})
	}
	scens = append(scens, scen{12, 5, 3, 0}, scen{35, 6, 0, 1}, scen{7, 9, 1000, 2}, scen{70, 12, 0, 0}, scen{130, 3, 0, 0}, scen{3, 4, 40000, 0}, scen{2, 6, 70000, 2}, scen{2, 7, 12000, 0},
		scen{2, 3, 1<<31 - 7, 0}, scen{2, 5, 1<<31 + 9, 2}, scen{3, 8, 1<<32 - 4, 1}, scen{2, 11, 1 << 40, 3},
		scen{20, 7, 3, 3}, scen{20, 8, 3, 8}, scen{20, 9, 3, 9}, scen{20, 10, 0, 10})
	for i, n := range around(append(a.sizes(300, "compute", "query"), a.narrow(300, "compute", "query")...)) {
		scens = append(scens, scen{n, int64(i), 0, i % 6}, scen{2, int64(i), n * 3, (i + 1) % 6})
	}
	var jobs []func()
	for _, sc := range scens {
		sc := sc
		jobs = append(jobs, func() {
			rd := rand.New(rand.NewSource(sc.seed))
			c := a.realCtx()
			w := a.newWorld(sc.dim, nil, c)
			w.solver = solver
			w.m.rev = sc.seed%2 == 1
			names := []string{"x", "y", "x1"}
			// number the variables in some order, with others in between
			var keys []triple
			for _, q := range names {
				for i := 0; i < sc.dim; i++ {
					for v := 0; v < 3; v++ {
						keys = append(keys, triple{q, int64(i), int64(v)})
					}
				}
			}
			keys = append(keys, triple{"x", int64(sc.dim), 0}, triple{"x", 0, 3}, triple{"x", int64(sc.dim), 2})
			rd.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
			vals := map[string][]int{}
			for _, q := range names {
				for i := 0; i < sc.dim; i++ {
					vals[q] = append(vals[q], rd.Intn(3))
				}
			}
			enc := oracle("q", func(m *Machine) (Val, Val) {
				for i, k := range keys {
					m.alloc(k.q, k.i, k.v)
					if i == 3 && sc.extra > 0 {
						m.ctxOp("UpdateTopV", m.ctxOp("TopV")["0"].(int64)+int64(sc.extra))
					}
				}
				return a.mkCNF(0, nil, nil), nil
			})
			out := func() string {
				top := c.topv(w.m)
				var val []int
				if sc.extra > 1<<20 {
					// only the variables that matter, and those that wrap to them
					for _, q := range names {
						for _, l := range xLits(c, q, vals[q]) {
							val = append(val, l)
							for _, k := range []int{1 << 31, 1 << 32} {
								if v := max(l, -l); v > k && c.cnfUnused(v-k, names, sc.dim) {
									val = append(val, []int{k - v, v - k}[rd.Intn(2)])
								}
							}
						}
					}
				} else {
					val = make([]int, top)
					for i := range val {
						val[i] = i + 1
						if rd.Intn(2) == 0 {
							val[i] = -val[i]
						}
					}
					for _, q := range names {
						for _, l := range xLits(c, q, vals[q]) {
							if l > 0 {
								val[l-1] = l
							} else {
								val[-l-1] = l
							}
						}
					}
				}
				if sc.extra > 20000 && sc.extra < 1<<20 {
					// most of the variables in between are of no interest
					var some []int
					for i, l := range val {
						if i < 200 || i > len(val)-200 || i%397 == 0 || i >= 32765 && i < 32770 || i >= 65533 && i < 65539 {
							some = append(some, l)
						}
					}
					val = some
				}
				var sb strings.Builder
				sb.WriteString("c a comment v 5 6\ns SATISFIABLE\n")
				switch {
				case sc.extra > 5000 && sc.extra < 20000:
					// as long as an output that does not fit in a small buffer
					sb.WriteString(vLines(val, 3000))
				case sc.mode%6 == 0:
					sb.WriteString(vLines(val, 1+rd.Intn(9)))
				case sc.mode%6 == 1: // one line
					sb.WriteString(vLines(val, len(val)+1))
				case sc.mode%6 == 2: // shuffled, comments in between
					rd.Shuffle(len(val), func(i, j int) { val[i], val[j] = val[j], val[i] })
					for i, l := range strings.Split(strings.TrimSpace(vLines(val, 3)), "\n") {
						sb.WriteString(l + "\n")
						if i%2 == 0 {
							sb.WriteString("c -1 -2 -3 in between\n\n")
						}
					}
				case sc.mode%6 == 3: // a literal per line, separate end
					for _, l := range val {
						fmt.Fprintf(&sb, "v %d\n", l)
					}
					sb.WriteString("v 0")
				case sc.mode%6 == 4: // wide spacing
					sb.WriteString(strings.ReplaceAll(vLines(val, 4), " ", "   "))
				default:
					sb.WriteString(strings.TrimSuffix(vLines(val, 7), "\n"))
				}
				sb.WriteString("\nc end -1 -2 -3 -4 0\n")
				return sb.String()
			}
			var broken string
			text := ""
			w.verdict = func(w *world, _ string) (int64, string, bool) {
				text = out()
				vl := 0
				var lines []string
				for _, l := range strings.Split(text, "\n") {
					if strings.HasPrefix(l, "v") {
						vl++
					}
					lines = append(lines, l)
				}
				switch sc.mode {
				case 6: // no value line
					broken = "no value line"
					text = "s SATISFIABLE\n"
				case 7:
					broken = "empty output"
					text = ""
				case 8, 9:
					// no value of feature f of x is true
					f := rd.Intn(sc.dim)
					broken = fmt.Sprintf("feature %d of x undecided", f)
					for v := 0; v < 3; v++ {
						n := int(c.cnfvar("x", int64(f), int64(v)))
						neg := fmt.Sprintf("-%d", n)
						for i, l := range lines {
							if !strings.HasPrefix(l, "v") {
								continue
							}
							fs := strings.Fields(l)
							for j := range fs {
								if fs[j] == fmt.Sprint(n) || fs[j] == neg {
									fs[j] = neg
									if sc.mode == 9 {
										fs[j] = ""
									}
								}
							}
							lines[i] = strings.Join(fs, " ")
						}
					}
					text = strings.Join(lines, "\n")
				case 10:
					broken = "a literal that is not a number"
					k := 0
					for i, l := range lines {
						if strings.HasPrefix(l, "v") && k == vl/2 {
							lines[i] = "v 1x" + l[1:]
							break
						} else if strings.HasPrefix(l, "v") {
							k++
						}
					}
					text = strings.Join(lines, "\n")
				case 12:
					broken = "the last literal is not a number"
					for i := len(lines) - 1; i >= 0; i-- {
						if strings.HasPrefix(lines[i], "v") && strings.TrimSpace(lines[i]) != "v 0" {
							f := strings.Fields(lines[i])
							if f[len(f)-1] == "0" {
								f = append(f[:len(f)-1:len(f)-1], "?", "0")
							} else {
								f = append(f, "?")
							}
							lines[i] = strings.Join(f, " ")
							break
						}
					}
					text = strings.Join(lines, "\n")
				}
				return 10, text, false
			}
			var v, e, se Val
			inst := fmt.Sprintf("dimension %d, numbering %d", sc.dim, sc.seed)
			if stop := try(func() { se = w.doStep(enc, ctxOV()) }); stop != nil {
				r.stop("step", fn, stop, inst)
				return
			}
			if se != nil {
				r.undecided("Step does not succeed")
				return
			}
			if broken != "" {
				inst += ", " + broken
			}
			vars := []Val{"x", "y"}
			switch {
			case sc.seed%3 == 1:
				vars = []Val{"x1", "x", "y", "x"}
			case sc.seed%3 == 2:
				vars = []Val{"x"}
			}
			if sc.seed%5 == 4 && sc.mode < 6 {
				vars = append(vars, vars[len(vars)-1], "y", "y")
			}
			if sc.mode == 11 {
				vars = append(vars, "z")
				broken = "variable z is not part of the query"
				inst += ", " + broken
			}
			if stop := try(func() { v, e = w.doValues(vars, ctxOV()) }); stop != nil {
				r.stop("values", fn, stop, inst)
				return
			}
			r.use(w.m)
			if broken != "" {
				if e == nil {
					r.bad("values:error", fn, where, fmt.Sprintf("%s is reported instead of an error (%s)", vkey(v), inst))
				}
				r.ok("values:error", 1)
				return
			}
			if e != nil {
				r.bad("values", fn, where, "fails with "+vkey(e)+" ("+inst+"), output "+text)
				return
			}
			got := toSeq(v)
			if len(got) != len(vars) {
				r.bad("values", fn, where, fmt.Sprintf("%d constants for %d variables (%s)", len(got), len(vars), inst))
				return
			}
			for i, q := range vars {
				if g := constVec(a, got[i]); !eqLen(g, vals[q.(string)]) {
					r.bad("values", fn, where, fmt.Sprintf("%s has value %s instead of %s (%s), output %q", q, vecStr(g), vecStr(vals[q.(string)]), inst, text))
					return
				}
				r.ok("values", 1)
			}
		})
	}
	r.parallel(jobs)
}

// cnfUnused tells whether v numbers no feature of the variables.
func (c *RealCtx) cnfUnused(v int, names []string, dim int) bool {
	for _, q := range names {
		for i := 0; i < dim; i++ {
			for k := 0; k < 3; k++ {
				if int(c.cnfvar(q, int64(i), int64(k))) == v {
					return false
				}
			}
		}
	}
	return true
}

func (c *RealCtx) topv(m *Machine) int {
	res, stop := c.op(m, "TopV")
	if stop != nil {
		panic(stop)
	}
	return int(res[0].(int64))
}

// checkCombinators decides P24.
func (a *Analyzer) checkCombinators(r *Report) {
	r.reason = "Sat of the conjunction, disjunction and atom are summarised (loops become guarded element evaluations with exit conditions) and evaluated on every list of up to three (thorough: four) elements that are true, false or fail, on nestings of conjunctions and disjunctions, and for the atom on every solver outcome: the result must be the boolean combination, and an error of any element that was evaluated must be returned."
	_, afn, awhere := a.computeFn(r, "AndCombinator", "Sat")
	_, ofn, owhere := a.computeFn(r, "OrCombinator", "Sat")
	_, tfn, twhere := a.computeFn(r, "QDTFAtom", "Sat")
	at, ot, qt := a.typeOf("compute", "AndCombinator"), a.typeOf("compute", "OrCombinator"), a.typeOf("compute", "QDTFAtom")
	unsat := a.unsat()
	type tree struct {
		op   byte // a o t f e
		kids []*tree
	}
	var str func(t *tree) string
	str = func(t *tree) string {
		if t.op != 'a' && t.op != 'o' {
			return string(t.op)
		}
		s := ""
		for _, k := range t.kids {
			s += str(k)
		}
		return string(t.op-32) + "(" + s + ")"
	}
	// 0 false 1 true 2 unknown (error below)
	var truth func(t *tree) int
	truth = func(t *tree) int {
		switch t.op {
		case 't':
			return 1
		case 'f':
			return 0
		case 'e':
			return 2
		}
		dec, neutral := 0, 1
		if t.op == 'o' {
			dec, neutral = 1, 0
		}
		out := neutral
		for _, k := range t.kids {
			switch truth(k) {
			case dec:
				return dec
			case 2:
				out = 2
			}
		}
		return out
	}
	var val func(t *tree, errs *int, seen *[]string) Val
	val = func(t *tree, errs *int, seen *[]string) Val {
		if t.op == 'a' || t.op == 'o' {
			ty := at
			if t.op == 'o' {
				ty = ot
			}
			n := &NV{typ: ty}
			for _, k := range t.kids {
				n.v = append(n.v, val(k, errs, seen))
			}
			return n
		}
		op := t.op
		return &OV{name: "element " + string(op), attr: map[string]Val{"sat": func(w *world, args []Val) (Val, Val) {
			*seen = append(*seen, string(op))
			if o, ok := args[2].(*OV); !ok || o.name != "solver" {
				r.bad("solver passed on", afn, awhere, "an element is evaluated with another solver")
			}
			if o, ok := args[1].(*OV); !ok || o.name != "ctx" {
				r.bad("context passed on", afn, awhere, "an element is evaluated with another context")
			}
			switch op {
			case 'e':
				*errs++
				return *errs%2 == 0, &EV{kind: "element failed"}
			case 't':
				return true, nil
			}
			return false, nil
		}}}
	}
	leafs := []*tree{{op: 't'}, {op: 'f'}, {op: 'e'}}
	var lists [][]*tree
	depth := 3
	if r.thorough() {
		depth = 5
	}
	var rec func(cur []*tree)
	rec = func(cur []*tree) {
		lists = append(lists, cur)
		if len(cur) == depth {
			return
		}
		for _, l := range leafs {
			rec(append(append([]*tree{}, cur...), l))
		}
	}
	rec(nil)
	var trees []*tree
	for _, l := range lists {
		trees = append(trees, &tree{'a', l}, &tree{'o', l})
	}
	rd := rand.New(rand.NewSource(17))
	flat := trees
	// the same combination several times over
	for _, op := range []byte("ao") {
		for _, in := range []byte("ao") {
			for _, l := range leafs {
				k := &tree{in, []*tree{l, leafs[0]}}
				trees = append(trees, &tree{op, []*tree{k, k}}, &tree{op, []*tree{k, leafs[0], k}}, &tree{op, []*tree{leafs[0], k, {in, []*tree{l, leafs[1]}}, k}})
			}
		}
	}
	for i := 0; i < 150; i++ {
		op := byte('a')
		if i%2 == 0 {
			op = 'o'
		}
		var ks []*tree
		for j := 1 + rd.Intn(4); j > 0; j-- {
			if rd.Intn(2) == 0 {
				ks = append(ks, leafs[rd.Intn(len(leafs))])
			} else {
				ks = append(ks, flat[rd.Intn(len(flat))])
			}
		}
		trees = append(trees, &tree{op, ks})
	}
	// long lists
	lens := append([]int{40, 130, 300}, around(append(a.sizes(1200, "compute"), a.narrow(300, "compute")...))...)
	for x := 0; x < 2*len(lens); x++ {
		op, n := "ao"[x%2], lens[x/2]
		for k := 0; k < 3; k++ {
			var ks []*tree
			for j := 0; j < n; j++ {
				l := leafs[0]
				if op == 'o' {
					l = leafs[1]
				}
				if j == n-1-n%3 && k < 2 {
					l = leafs[1+k]
					if op == 'o' && k == 0 {
						l = leafs[0]
					}
				}
				ks = append(ks, l)
			}
			trees = append(trees, &tree{op, ks})
		}
	}
	for _, t := range trees {
		fn, where := afn, awhere
		if t.op == 'o' {
			fn, where = ofn, owhere
		}
		w := a.newWorld(1, nil, NewSpecCtx())
		errs := 0
		var seen []string
		v := val(t, &errs, &seen)
		var b, e Val
		inst := str(t)
		if len(inst) > 60 {
			inst = fmt.Sprintf("%s... of %d elements", inst[:60], len(t.kids))
		}
		if stop := try(func() { b, e = w.doSat(v, ctxOV(), &OV{name: "solver"}) }); stop != nil {
			r.stop("combination", fn, stop, inst)
			continue
		}
		r.use(w.m)
		r.ok("combination", 1)
		if e != nil {
			if errs == 0 {
				r.bad("combination:error", fn, where, "an error is returned though no element failed ("+inst+")")
			}
			continue
		}
		if errs > 0 {
			r.bad("combination:error lost", fn, where, fmt.Sprintf("reports %v though an evaluated element failed (%s, evaluated %s)", b, inst, strings.Join(seen, "")))
			continue
		}
		switch truth(t) {
		case 2:
			r.bad("combination:undetermined", fn, where, fmt.Sprintf("reports %v though the outcome depends on an element that was not evaluated (%s)", b, inst))
		case 1:
			if b != true {
				r.bad("combination", fn, where, "reports false for "+inst)
			}
		case 0:
			if b != false {
				r.bad("combination", fn, where, "reports true for "+inst)
			}
		}
	}
	// atoms
	wrapped := &EV{kind: "other", wrap: []Val{&EV{kind: "inner"}}}
	for _, neg := range []bool{false, true} {
		for i, out := range []Val{nil, unsat, &EV{kind: "other"}, wrapped} {
			w := a.newWorld(1, nil, a.realCtx())
			q := w.formQuery("q", testForms[1])
			var asked []Val
			w.step = func(w *world, q Val) Val {
				asked = append(asked, q)
				return out
			}
			x := mkStruct(qt, map[string]Val{"Query": q, "Negated": neg})
			inst := fmt.Sprintf("negated %v, step outcome %s", neg, vkey(out))
			var b, e Val
			if stop := try(func() { b, e = w.doSat(x, ctxOV(), &OV{name: "solver"}) }); stop != nil {
				r.stop("atom", tfn, stop, inst)
				continue
			}
			r.use(w.m)
			r.ok("atom", 1)
			for _, y := range asked {
				if !veq(y, q) {
					r.bad("atom:query", tfn, twhere, "the solver is asked another query ("+inst+")")
				}
			}
			if len(asked) == 0 {
				r.bad("atom:query", tfn, twhere, "the solver is not asked ("+inst+")")
				continue
			}
			if i >= 2 {
				if e == nil {
					r.bad("atom:error lost", tfn, twhere, fmt.Sprintf("reports %v (%s)", b, inst))
				}
				continue
			}
			if e != nil {
				r.bad("atom:error", tfn, twhere, "reports "+vkey(e)+" ("+inst+")")
				continue
			}
			if want := (out == nil) != neg; b != want {
				r.bad("atom", tfn, twhere, fmt.Sprintf("reports %v (%s)", b, inst))
			}
		}
	}
}

// optimum instances: a property and a strict order over partial instances,
// both given as formulas over the variables of v.

type optInst struct {
	dim  int
	in   map[string]bool       // values with the property
	less func(a, b []int) bool // a precedes b
	name string
	// queries of the library in the place of known formulas
	fg    func(q string) Val
	og    func(q string, c Val) Val
	nodes []Node
}

func optInstances(thorough bool) []optInst {
	sub := func(a, b []int) bool { // a strictly subsumed by b
		n := 0
		for i := range a {
			if a[i] != 0 && a[i] != b[i] {
				return false
			}
			if a[i] != b[i] {
				n++
			}
		}
		return n > 0
	}
	orders := []struct {
		name string
		f    func(a, b []int) bool
	}{
		{"strict subsumption", sub},
		{"reverse subsumption", func(a, b []int) bool { return sub(b, a) }},
		{"fewer defined", func(a, b []int) bool { return bots(a) > bots(b) }},
		{"more defined", func(a, b []int) bool { return bots(a) < bots(b) }},
		{"lexicographic", func(a, b []int) bool { return vecStr(a) < vecStr(b) }},
		{"nothing", func(a, b []int) bool { return false }},
	}
	var out []optInst
	n := 3
	if thorough {
		n = 20
	}
	for dim := 1; dim <= 2; dim++ {
		vs := vectors(dim)
		for oi, o := range orders {
			sets := []uint{0, 1<<len(vs) - 1, 1, 1 << (len(vs) - 1)}
			rd := rand.New(rand.NewSource(int64(oi*7 + dim)))
			for i := 0; i < n; i++ {
				sets = append(sets, uint(rd.Intn(1<<len(vs))))
			}
			for _, s := range sets {
				x := optInst{dim: dim, in: map[string]bool{}, less: o.f}
				var el []string
				for i, v := range vs {
					if s>>uint(i)&1 == 1 {
						x.in[vecStr(v)] = true
						el = append(el, vecStr(v))
					}
				}
				x.name = "property {" + strings.Join(el, " ") + "}, order " + o.name
				out = append(out, x)
			}
		}
	}
	return out
}

// wideOpt are a few instances of higher dimensions.
func wideOpt(thorough bool) []optInst {
	dims := []int{3, 4}
	if thorough {
		dims = []int{3, 4, 5}
	}
	var out []optInst
	for _, dim := range dims {
		vs := vectors(dim)
		for k := 0; k < 3; k++ {
			rd := rand.New(rand.NewSource(int64(dim*10 + k)))
			x := optInst{dim: dim, in: map[string]bool{}}
			for _, v := range vs {
				if k == 0 || rd.Intn(3) == 0 {
					x.in[vecStr(v)] = true
				}
			}
			x.less = []func(a, b []int) bool{
				func(a, b []int) bool { return vecStr(a) < vecStr(b) },
				func(a, b []int) bool { return bots(a) > bots(b) },
				func(a, b []int) bool { return bots(a) < bots(b) },
			}[k]
			x.name = fmt.Sprintf("property of %d of %d instances, order %d", len(x.in), len(vs), k)
			out = append(out, x)
		}
	}
	return out
}

// excl is the formula excluding every value of q for which keep is false.
func exclude(a *Analyzer, m *Machine, q string, dim int, keep func(v []int) bool) Val {
	var s [][]int
	for i := 0; i < dim; i++ {
		for v := 0; v < 3; v++ {
			m.alloc(q, int64(i), int64(v))
		}
	}
	for _, v := range vectors(dim) {
		if keep(v) {
			continue
		}
		c := []int{}
		for i, x := range v {
			c = append(c, -m.alloc(q, int64(i), int64(x)))
		}
		s = append(s, c)
	}
	return a.mkCNF(maxAbs(s), s, nil)
}

type optOut struct {
	found bool
	value []int
	calls int64
	err   Val
}

func (o optOut) String() string {
	if o.err != nil {
		return "error " + vkey(o.err)
	}
	if !o.found {
		return fmt.Sprintf("nothing, %d calls", o.calls)
	}
	return fmt.Sprintf("%s, %d calls", vecStr(o.value), o.calls)
}

// optimum evaluates ComputeOptim on an instance.
func (w *world) optimum(x optInst, v string) (out optOut, stop *Stop) {
	a := w.a
	fn := a.prog.Func("compute", "ComputeOptim")
	fg, og := &FV{name: "fg"}, &FV{name: "og"}
	w.m.fnv = func(f *FV, name string, args []Val) Val {
		if f != fg && f != og {
			return genName(f, args)
		}
		q := toStr(args[0])
		if f == fg && x.fg != nil {
			return x.fg(q)
		}
		if f == og && x.og != nil {
			return x.og(q, args[1])
		}
		if f == fg {
			return oracle("fg("+q+")", func(m *Machine) (Val, Val) {
				return exclude(a, m, q, x.dim, func(v []int) bool { return x.in[vecStr(v)] }), nil
			})
		}
		c := constVec(a, args[1])
		if constID(args[1]) == v && v != "" {
			// a quantifier of the order's that binds the variable's name
			// binds the constant as well
			c = make([]int, x.dim)
		}
		return oracle("og("+q+","+vecStr(c)+")", func(m *Machine) (Val, Val) {
			return exclude(a, m, q, x.dim, func(v []int) bool { return len(c) == x.dim && x.less(v, c) }), nil
		})
	}
	names := map[string]Val{}
	sig := fn.Type().(*types.Signature)
	ps := sig.Params()
	for i := 0; i < ps.Len(); i++ {
		t := ps.At(i).Type()
		k := fmt.Sprintf("a%d", i)
		switch {
		case isNamed(t, "SVFormula"):
			names[k] = fg
		case isNamed(t, "VCOrder"):
			names[k] = og
		case isNamed(t, "QVar"):
			names[k] = v
		case isNamed(t, "Solver"):
			names[k] = &OV{name: "solver"}
		}
	}
	res, _, stop := w.run(fn, nil, ctxOV(), names)
	if stop != nil {
		return out, stop
	}
	sv, ok := res[0].(*SV)
	if !ok {
		return out, &Stop{"undecided", "result " + vkey(res[0]), "", ""}
	}
	u := under(sv.typ).(*types.Struct)
	out.err = res[1]
	for i := 0; i < u.NumFields(); i++ {
		switch u.Field(i).Name() {
		case "Found":
			out.found = sv.f[i] == true
		case "Value":
			if out.err == nil && sv.f[i] != nil {
				out.value = constVec(a, sv.f[i])
			}
		case "Calls":
			out.calls, _ = sv.f[i].(int64)
		}
	}
	return out, nil
}

func (a *Analyzer) judgeOptimum(x optInst, o optOut, calls int) string {
	if o.err != nil {
		return "fails with " + vkey(o.err)
	}
	if o.calls != int64(calls) {
		return fmt.Sprintf("reports %d calls, %d were made", o.calls, calls)
	}
	if !o.found {
		if len(x.in) > 0 {
			return "reports nothing though the property is satisfiable"
		}
		return ""
	}
	if len(o.value) != x.dim || !x.in[vecStr(o.value)] {
		return fmt.Sprintf("reports %s, which does not have the property", vecStr(o.value))
	}
	for _, v := range vectors(x.dim) {
		if x.in[vecStr(v)] && x.less(v, o.value) {
			return fmt.Sprintf("reports %s, though %s precedes it", vecStr(o.value), vecStr(v))
		}
	}
	return ""
}

// checkOptimum decides P25.
func (a *Analyzer) checkOptimum(r *Report) {
	r.reason = "ComputeOptim is summarised to a loop of solver steps and value retrievals with exit conditions. The summary is composed with those of Step, Values, the formula writer, the logical operators and the context, and with a decision procedure standing for the solver process that picks models by several policies; over properties and strict orders on the partial instances of dimensions 1 and 2 the outcome must be a minimal value having the property, or absence exactly if there is none, and the number of calls must be the number of steps taken. Scripted failures of every step and retrieval must be returned as errors."
	_, fn, where := a.computeFn(r, "", "ComputeOptim")
	a.computeFn(r, "Solver", "Step")
	a.computeFn(r, "Solver", "Values")
	solver, err := a.newSolver()
	if err != nil {
		r.undecided(err.Error())
		return
	}
	seeds := 2
	if r.thorough() {
		seeds = 12
	}
	var jobs []func()
	xs := append(optInstances(r.thorough()), wideOpt(r.thorough())...)
	for _, x := range append(xs, a.libOpt(r.thorough())...) {
		for sd := 0; sd < seeds; sd++ {
			x, sd := x, int64(sd)
			jobs = append(jobs, func() {
				c := a.realCtx()
				w := a.newWorld(x.dim, a.nodeVals(x.nodes), c)
				w.solver = solver
				w.verdict = func(w *world, text string) (int64, string, bool) {
					code, out := solveText(text, sd*31+int64(len(w.runs)))
					return code, out, false
				}
				v := []string{"x", "opt"}[sd%2]
				o, stop := w.optimum(x, v)
				r.use(w.m)
				inst := fmt.Sprintf("%s, model choice %d", x.name, sd)
				if stop != nil {
					if stop.kind == "endless" {
						r.bad("optimum:endless", fn, where, stop.msg+" ("+inst+")")
						return
					}
					r.stop("optimum", fn, stop, inst)
					return
				}
				if msg := a.judgeOptimum(x, o, w.nStep); msg != "" {
					r.bad("optimum", fn, where, msg+" ("+inst+")")
				}
				if len(w.runs) != w.nStep {
					r.undecided("steps without a run")
				}
				r.ok("optimum", 1)
			})
		}
	}
	// scripted outcomes
	unsat := a.unsat()
	type script struct {
		steps []byte // s u e
		vals  []byte // v e
	}
	var scripts []script
	limit := 300
	if r.thorough() {
		limit = 1500
	}
	for _, n := range append([]int{0, 1, 2, 3, 4, 20, 130}, around(append(a.sizes(limit, "compute"), a.narrow(limit, "compute")...))...) {
		for _, last := range []byte{'u', 'e'} {
			st := append([]byte(strings.Repeat("s", n)), last)
			scripts = append(scripts, script{st, []byte(strings.Repeat("v", n))})
		}
		for _, ve := range []byte{'e'} {
			if n > 0 {
				scripts = append(scripts, script{[]byte(strings.Repeat("s", n)), append([]byte(strings.Repeat("v", n-1)), ve)})
			}
		}
	}
	for _, sc := range scripts {
		sc := sc
		jobs = append(jobs, func() {
			w := a.newWorld(2, nil, a.realCtx())
			w.atLeast = len(sc.steps) + 8
			x := optInst{dim: 2, in: map[string]bool{}, less: func(a, b []int) bool { return false }}
			inst := fmt.Sprintf("steps %s, retrievals %s", sc.steps, sc.vals)
			if n := len(sc.steps); n > 8 {
				inst = fmt.Sprintf("%d steps, the last %s, %d retrievals, the last %s", n, sc.steps[n-1:], len(sc.vals), sc.vals[len(sc.vals)-1:])
			}
			over := false
			si, vi := 0, 0
			var lastVal Val
			w.step = func(w *world, q Val) Val {
				if si >= len(sc.steps) {
					over = true
					return &EV{kind: "script over"}
				}
				si++
				switch sc.steps[si-1] {
				case 's':
					return nil
				case 'u':
					return unsat
				}
				return &EV{kind: "step failed"}
			}
			w.values = func(w *world, vars []Val) (Val, Val) {
				if vi >= len(sc.vals) {
					over = true
					return nil, &EV{kind: "script over"}
				}
				vi++
				if sc.vals[vi-1] == 'e' {
					return nil, &EV{kind: "retrieval failed"}
				}
				var out []Val
				for range vars {
					lastVal = a.qconst("", []int{vi % 3, (vi + 1) % 3})
					out = append(out, lastVal)
				}
				return out, nil
			}
			o, stop := w.optimum(x, "x")
			r.use(w.m)
			if stop != nil {
				r.stop("optimum", fn, stop, inst)
				return
			}
			r.ok("scripted outcomes", 1)
			fails := strings.Contains(string(sc.steps)+string(sc.vals), "e")
			switch {
			case over && !fails:
				r.bad("scripted outcomes", fn, where, "asks on after the last improvement was refuted ("+inst+")")
			case fails && o.err == nil:
				r.bad("scripted outcomes", fn, where, fmt.Sprintf("a failure gives %s (%s)", o, inst))
			case !fails && o.err != nil:
				r.bad("scripted outcomes", fn, where, fmt.Sprintf("%s (%s)", o, inst))
			case !fails && len(sc.steps) == 1 && o.found:
				r.bad("scripted outcomes", fn, where, "a value is reported though the property is unsatisfiable ("+inst+")")
			case !fails && len(sc.steps) > 1 && (!o.found || !eqLen(o.value, constVec(a, lastVal))):
				r.bad("scripted outcomes", fn, where, fmt.Sprintf("%s instead of the last value retrieved, %s (%s)", o, vecStr(constVec(a, lastVal)), inst))
			case !fails && o.calls != int64(len(sc.steps)):
				r.bad("scripted outcomes", fn, where, fmt.Sprintf("%d calls reported, %d made (%s)", o.calls, len(sc.steps), inst))
			}
		})
	}
	r.parallel(jobs)
	a.parts(r, []string{"P23", "P26"})
}

// checkTemp decides P27.
func (a *Analyzer) checkTemp(r *Report) {
	r.reason = "In the summaries of Step, Values, the combinators and ComputeOptim every creation and removal of a file is an effect with its path condition; deferred calls are placed on every way out. The summaries are evaluated with each effect failing in turn and for every class of exit code; on every way out each file created must have been removed and nothing else."
	_, sfn, swhere := a.computeFn(r, "Solver", "Step")
	_, ofn, owhere := a.computeFn(r, "", "ComputeOptim")
	_, tfn, twhere := a.computeFn(r, "QDTFAtom", "Sat")
	solver, err := a.newSolver()
	if err != nil {
		r.undecided(err.Error())
		return
	}
	judge := func(w *world, fn, where, inst string, stop *Stop) bool {
		r.use(w.m)
		if stop != nil {
			r.stop("files removed", fn, stop, inst)
			return false
		}
		r.ok("files removed", 1)
		if w.failed && (w.what == "os.Remove" || w.what == "os.RemoveAll") {
			return true // the environment refuses
		}
		if l := w.leftovers(); len(l) > 0 {
			r.bad("files removed", fn, where, fmt.Sprintf("%d of %d files created are left behind (%s)", len(l), len(w.made), inst))
		}
		for _, b := range w.bad {
			r.bad("only own files removed", fn, where, b+" ("+inst+")")
		}
		return true
	}
	note := func(w *world) string {
		if w.failed {
			return "failing " + w.what + " at " + w.where
		}
		return "nothing fails"
	}
	var jobs []func()
	for fi, f := range testForms {
		for _, code := range []int64{10, 20, 0, 1, -1, 1000} {
			fi, f, code := fi, f, code
			jobs = append(jobs, func() {
				nf := 0
				for failAt := -1; failAt < nf; failAt++ {
					if failAt >= 0 && fi > 2 && !r.thorough() {
						return
					}
					for part := 0; part < 2; part++ {
						w := a.newWorld(f.dim, nil, a.realCtx())
						w.failAt, w.solver = failAt, solver
						w.verdict = func(w *world, _ string) (int64, string, bool) { return code, "v 1 0\n", code == 1000 }
						q := w.formQuery("q", f)
						fn, where := sfn, swhere
						var stop *Stop
						if part == 0 {
							stop = try(func() { w.doStep(q, ctxOV()) })
						} else {
							fn, where = tfn, twhere
							x := mkStruct(a.typeOf("compute", "QDTFAtom"), map[string]Val{"Query": q})
							stop = try(func() { w.doSat(x, ctxOV(), &OV{name: "solver"}) })
						}
						if !judge(w, fn, where, fmt.Sprintf("%s, exit code %d", note(w), code), stop) {
							return
						}
						if failAt < 0 {
							nf = w.n
						}
					}
				}
			})
		}
	}
	xs := optInstances(false)
	for i, x := range xs {
		if i%4 != 0 && !r.thorough() {
			continue
		}
		x := x
		jobs = append(jobs, func() {
			nf := 0
			for failAt := -1; failAt < nf; failAt++ {
				w := a.newWorld(x.dim, nil, a.realCtx())
				w.failAt, w.solver = failAt, solver
				w.verdict = func(w *world, text string) (int64, string, bool) {
					code, out := solveText(text, int64(len(w.runs)))
					return code, out, false
				}
				_, stop := w.optimum(x, "x")
				if !judge(w, ofn, owhere, fmt.Sprintf("%s, %s", note(w), x.name), stop) {
					return
				}
				if failAt < 0 {
					nf = min(w.n, 60)
				}
			}
		})
		jobs = append(jobs, func() {
			// odd exit codes at the k-th step
			for k := 1; k < 4; k++ {
				for _, bc := range []int64{0, 1, -1, 20, 1000} {
					w := a.newWorld(x.dim, nil, a.realCtx())
					w.solver = solver
					w.verdict = func(w *world, text string) (int64, string, bool) {
						if len(w.runs) == k {
							return bc, "", bc == 1000
						}
						code, out := solveText(text, int64(len(w.runs)))
						return code, out, false
					}
					_, stop := w.optimum(x, "x")
					if !judge(w, ofn, owhere, fmt.Sprintf("exit code %d at step %d, %s", bc, k, x.name), stop) {
						return
					}
				}
			}
		})
	}
	r.parallel(jobs)
}

// checkFailures decides P28.
func (a *Analyzer) checkFailures(r *Report) {
	r.reason = "Single-failure composition: in the summaries of every library operation that performs fallible operations (file and process effects, sub-query encodings, solver steps, value retrievals, elements of combinations, scope handling), each such operation is made to fail in turn; the operation's error result, a term over the outcomes, must not be nil. In addition every place of the predicates, extensions and context where an error result is dropped is listed by a type-resolved query and must be in an exempt class (closing and removing files, writing to in-memory buffers, printing)."
	_, sfn, swhere := a.computeFn(r, "Solver", "Step")
	_, ofn, owhere := a.computeFn(r, "", "ComputeOptim")
	_, tfn, twhere := a.computeFn(r, "QDTFAtom", "Sat")
	_, bfn, bwhere := a.computeFn(r, "", "BinSolver")
	unsat := a.unsat()
	solver, err := a.newSolver()
	if err != nil {
		r.undecided(err.Error())
		return
	}
	exempt := map[string]bool{"file.Close": true, "os.Remove": true, "os.RemoveAll": true, "file.Sync": true}
	judge := func(w *world, fn, where string, e Val, stop *Stop, inst string) bool {
		r.use(w.m)
		if stop != nil {
			r.stop("failure reported", fn, stop, inst)
			return false
		}
		if !w.failed {
			return true
		}
		r.ok("failure reported", 1)
		if e == nil && !exempt[w.what] {
			r.bad("failure reported", fn, where, fmt.Sprintf("a failing %s (%s) is not reported (%s)", w.what, w.where, inst))
		}
		if e != nil && errIsV(e, unsat) && !exempt[w.what] {
			r.bad("failure reported", fn, where, fmt.Sprintf("a failing %s (%s) is reported as unsatisfiability (%s)", w.what, w.where, inst))
		}
		return true
	}
	var jobs []func()
	for fi, f := range testForms {
		for _, code := range []int64{10, 20} {
			fi, f, code := fi, f, code
			jobs = append(jobs, func() {
				for part := 0; part < 3; part++ {
					nf := 0
					for failAt := -1; failAt < nf; failAt++ {
						w := a.newWorld(f.dim, nil, a.realCtx())
						w.failAt, w.solver = failAt, solver
						w.verdict = func(w *world, _ string) (int64, string, bool) { return code, "v 1 0\n", false }
						q := w.formQuery("q", f)
						fn, where := sfn, swhere
						var e Val
						var stop *Stop
						inst := fmt.Sprintf("formula %d, exit code %d", fi, code)
						if part == 0 {
							stop = try(func() { e = w.doStep(q, ctxOV()) })
						} else {
							fn, where = tfn, twhere
							x := mkStruct(a.typeOf("compute", "QDTFAtom"), map[string]Val{"Query": q, "Negated": part == 2})
							stop = try(func() { _, e = w.doSat(x, ctxOV(), &OV{name: "solver"}) })
						}
						if !judge(w, fn, where, e, stop, inst) {
							return
						}
						if failAt < 0 {
							nf = w.n
						}
					}
				}
			})
		}
	}
	xs := optInstances(false)
	for i, x := range xs {
		if i%3 != 1 && !r.thorough() {
			continue
		}
		x := x
		jobs = append(jobs, func() {
			nf := 0
			for failAt := -1; failAt < nf; failAt++ {
				w := a.newWorld(x.dim, nil, a.realCtx())
				w.failAt, w.solver = failAt, solver
				w.verdict = func(w *world, text string) (int64, string, bool) {
					code, out := solveText(text, int64(len(w.runs)))
					return code, out, false
				}
				o, stop := w.optimum(x, "x")
				if !judge(w, ofn, owhere, o.err, stop, x.name) {
					return
				}
				if failAt < 0 {
					nf = min(w.n, 60)
				}
			}
		})
	}
	// the constructor
	for _, failAt := range []int{-1, 0} {
		w := a.newWorld(1, nil, NewSpecCtx())
		w.failAt = failAt
		res, _, stop := w.run(a.prog.Func("compute", "BinSolver"), nil, ctxOV(), map[string]Val{"a0": solverPath})
		if stop != nil {
			if stop.kind == "panic" {
				r.stop("failure reported", bfn, stop, "constructor")
			} else {
				r.undecided("BinSolver: " + stop.msg)
			}
			break
		}
		judge(w, bfn, bwhere, res[1], nil, "constructor")
	}
	// operators
	ops := []struct {
		name  string
		kids  int
		build func(k []Val) Val
	}{
		{"And", 2, func(k []Val) Val {
			return mkStruct(a.typeOf("query/logop", "And"), map[string]Val{"Q1": k[0], "Q2": k[1]})
		}},
		{"Or", 2, func(k []Val) Val {
			return mkStruct(a.typeOf("query/logop", "Or"), map[string]Val{"Q1": k[0], "Q2": k[1]})
		}},
		{"Not", 1, func(k []Val) Val { return mkStruct(a.typeOf("query/logop", "Not"), map[string]Val{"Q": k[0]}) }},
		{"WithVar", 1, func(k []Val) Val {
			return mkStruct(a.typeOf("query/logop", "WithVar"), map[string]Val{"I": "y", "Q": k[0]})
		}},
		{"ForAllGuarded", 1, func(k []Val) Val {
			return mkStruct(a.typeOf("query/logop", "ForAllGuarded"), map[string]Val{"I": a.qconst("c", nil), "Q": k[0]})
		}},
	}
	md := models(2, 0, 0)
	wantErr := &EV{kind: "sub-query failed"}
	for _, o := range ops {
		o := o
		for mi, m0 := range md {
			if mi%4 != 0 && o.name != "ForAllGuarded" {
				continue
			}
			m0 := m0
			for pos := 0; pos < o.kids; pos++ {
				maxN := 1
				if o.name == "ForAllGuarded" {
					maxN = len(m0.nodes)
				}
				for n := 0; n < maxN; n++ {
					for _, withFormula := range []bool{false, true} {
						pos, n, withFormula := pos, n, withFormula
						jobs = append(jobs, func() {
							fn, where := a.encWhere("query/logop", o.name)
							m := NewMachine(a, m0.dim, a.nodeVals(m0.nodes))
							m.ctx = a.realCtx()
							calls := 0
							kids := make([]Val, o.kids)
							for i := range kids {
								i := i
								kids[i] = oracle(fmt.Sprintf("child %d", i), func(m *Machine) (Val, Val) {
									p := m.alloc("p", int64(i), 0)
									f := a.mkCNF(p, [][]int{{p}}, nil)
									if i == pos {
										calls++
										if calls-1 == n {
											if !withFormula {
												f = a.mkCNF(0, nil, nil)
											}
											return f, wantErr
										}
									}
									return f, nil
								})
							}
							q := o.build(kids)
							if o.name != "And" && n%2 == 1 {
								q = mkStruct(a.typeOf("query/logop", "Not"), map[string]Val{"Q": q})
							}
							_, e, stop := m.Encode(q, ctxOV())
							r.use(m)
							inst := fmt.Sprintf("%s, child %d fails at its encoding %d", o.name, pos, n+1)
							if stop != nil {
								r.stop("failure reported", fn, stop, inst)
								return
							}
							if calls <= n {
								return
							}
							r.ok("failure reported", 1)
							if e == nil {
								r.bad("failure reported", fn, where, "a sub-query's error is lost ("+inst+")")
							}
						})
					}
				}
			}
		}
	}
	// scope operations of the context
	ft := a.typeOf("query/logop", "ForAllGuarded")
	nt := a.typeOf("query/logop", "Not")
	for mi, m0 := range md {
		if mi%3 != 0 && !r.thorough() {
			continue
		}
		m0 := m0
		for shape := 0; shape < 3; shape++ {
			shape := shape
			jobs = append(jobs, func() {
				fn, where := a.encWhere("query/logop", "ForAllGuarded")
				for k, n := 0, 0; k <= n; k++ {
					m := NewMachine(a, m0.dim, a.nodeVals(m0.nodes))
					ctx := NewSpecCtx()
					ctx.failOp = k
					m.ctx = ctx
					var q Val = oracle("body", func(m *Machine) (Val, Val) {
						p := m.alloc("p", 0, 0)
						return a.mkCNF(p, [][]int{{p}}, nil), nil
					})
					if shape == 2 {
						q = mkStruct(ft, map[string]Val{"I": a.qconst("d", nil), "Q": q})
					}
					q = mkStruct(ft, map[string]Val{"I": a.qconst("c", nil), "Q": q})
					if shape == 1 {
						q = mkStruct(nt, map[string]Val{"Q": q})
					}
					_, e, stop := m.Encode(q, ctxOV())
					r.use(m)
					inst := fmt.Sprintf("%s, scope operation %d fails, nesting %d", m0.name, k, shape)
					if stop != nil {
						r.stop("failure reported", fn, stop, inst)
						return
					}
					if k == 0 {
						n = min(ctx.opN, 40)
						continue
					}
					if ctx.failed == "" {
						continue
					}
					r.ok("failure reported", 1)
					if e == nil {
						r.bad("failure reported", fn, where, "a failing "+ctx.failed+" is not reported ("+inst+")")
						return
					}
				}
			})
		}
	}
	r.parallel(jobs)
	a.errorLint(r)
}

var errType = types.Universe.Lookup("error").Type()

// errorLint lists dropped errors and nil results on error paths.
func (a *Analyzer) errorLint(r *Report) {
	for _, fd := range a.libFuncs() {
		switch path.Base(fd.Pkg.Path) {
		case "compute", "cnf", "logop":
			continue // decided above, for CNF.ToFile with Step
		}
		info := fd.Pkg.Info
		name := shortName(fd.Obj)
		callee := func(c *ast.CallExpr) *types.Func {
			switch f := ast.Unparen(c.Fun).(type) {
			case *ast.Ident:
				x, _ := info.Uses[f].(*types.Func)
				return x
			case *ast.SelectorExpr:
				x, _ := info.Uses[f.Sel].(*types.Func)
				return x
			}
			return nil
		}
		ok := func(c *ast.CallExpr) bool {
			f := callee(c)
			if f == nil || f.Pkg() == nil {
				return false
			}
			full := f.FullName()
			switch f.Pkg().Path() {
			case "fmt":
				return strings.HasPrefix(f.Name(), "Print") || strings.HasPrefix(f.Name(), "Fprint") && len(c.Args) > 0 && memWriter(info.TypeOf(c.Args[0]))
			case "strings", "bytes":
				return true
			}
			switch f.Name() {
			case "Close":
				return true
			case "WriteString", "WriteByte", "WriteRune", "Write":
				if se, k := ast.Unparen(c.Fun).(*ast.SelectorExpr); k {
					return memWriter(info.TypeOf(se.X))
				}
			}
			return full == "os.Remove" || full == "os.RemoveAll"
		}
		errAt := func(t types.Type) []int {
			var out []int
			switch y := t.(type) {
			case *types.Tuple:
				for i := 0; i < y.Len(); i++ {
					if types.Identical(y.At(i).Type(), errType) {
						out = append(out, i)
					}
				}
			default:
				if t != nil && types.Identical(t, errType) {
					out = append(out, 0)
				}
			}
			return out
		}
		drop := func(c *ast.CallExpr) {
			r.ok("error results used", 1)
			if ok(c) {
				return
			}
			f := callee(c)
			what := "a function value"
			if f != nil {
				what = f.Name()
			}
			r.bad("error results used", name, a.prog.Pos(c.Pos()), "the error of "+what+" is dropped")
		}
		ast.Inspect(fd.Decl.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ExprStmt:
				if c, k := x.X.(*ast.CallExpr); k && len(errAt(info.TypeOf(c))) > 0 {
					drop(c)
				}
			case *ast.DeferStmt:
				if _, lit := x.Call.Fun.(*ast.FuncLit); !lit && len(errAt(info.TypeOf(x.Call))) > 0 {
					if f := callee(x.Call); f != nil && f.Name() == "PopScope" {
						return true // closing: cannot fail after a successful open
					}
					drop(x.Call)
				}
			case *ast.AssignStmt:
				if len(x.Rhs) == 1 {
					if c, k := x.Rhs[0].(*ast.CallExpr); k {
						for _, i := range errAt(info.TypeOf(c)) {
							if i < len(x.Lhs) {
								if id, k := x.Lhs[i].(*ast.Ident); k && id.Name == "_" {
									drop(c)
								} else {
									r.ok("error results used", 1)
								}
							}
						}
					}
				}
			}
			return true
		})
	}
}

// memWriter reports types whose writes cannot fail.
func memWriter(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "strings.Builder", "bytes.Buffer":
		return true
	}
	return false
}
