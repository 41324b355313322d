package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"
)

// lane is an evaluation that can be held up before each of its effects.
type lane struct {
	w      *world
	what   string
	body   func(w *world) string
	resume chan struct{}
	yield  chan bool
	done   bool
	n      int // effects so far
	out    string
	failed string // the analysis failed
}

func (l *lane) start() {
	l.resume, l.yield = make(chan struct{}), make(chan bool)
	l.w.before = func() {
		l.n++
		l.yield <- true
		<-l.resume
	}
	go func() {
		<-l.resume
		defer func() {
			if x := recover(); x != nil {
				l.failed = fmt.Sprint(x)
			}
			l.done = true
			l.yield <- false
		}()
		var out string
		if stop := try(func() { out = l.body(l.w) }); stop != nil {
			if stop.kind == "undecided" {
				l.failed = stop.msg
				return
			}
			out = stop.kind + " " + stop.msg
		}
		l.out = out
	}()
}

// step lets the evaluation go on to its next effect.
func (l *lane) step() {
	if !l.done {
		l.resume <- struct{}{}
		<-l.yield
	}
}

func (l *lane) finish() {
	for !l.done {
		l.step()
	}
}

// account is everything an observer sees of an evaluation.
func (l *lane) account() string {
	s := l.out
	for _, r := range l.w.runs {
		s += "|" + r.path + ":" + r.text
	}
	return s
}

// apartKinds are the evaluations to be interleaved.
func (a *Analyzer) apartKinds(solver Val) []func() *lane {
	mk := func(dim int, nodes []Node, what string, body func(w *world) string) func() *lane {
		return func() *lane {
			w := a.newWorld(dim, a.nodeVals(nodes), a.realCtx())
			w.solver = solver
			w.verdict = func(w *world, text string) (int64, string, bool) {
				code, out := solveText(text, int64(len(w.runs)))
				return code, out, false
			}
			return &lane{w: w, what: what, body: body}
		}
	}
	var out []func() *lane
	for i, f := range []testForm{testForms[2], testForms[3], {[][]int{{2}}, [][]int{{1, 2, 3}, {-1, -2}, {-1, -3}, {-2, -3}}, 1}} {
		f := f
		out = append(out, mk(f.dim, nil, fmt.Sprintf("Step, Values (formula %d)", i), func(w *world) string {
			e := w.doStep(w.formQuery("q", f), ctxOV())
			s := vkey(e)
			if e == nil {
				v, e := w.doValues([]Val{"x"}, ctxOV())
				s += " " + vkey(v) + " " + vkey(e)
			}
			return s
		}))
	}
	out = append(out, mk(1, nil, "QDTFAtom.Sat", func(w *world) string {
		at := mkStruct(a.typeOf("compute", "QDTFAtom"), map[string]Val{"Query": w.formQuery("q", testForms[2]), "Negated": true})
		v, e := w.doSat(at, ctxOV(), w.solver)
		return vkey(v) + " " + vkey(e)
	}))
	for i, x := range optInstances(false) {
		if x.dim != 1 || i%5 != 1 {
			continue
		}
		x := x
		out = append(out, mk(x.dim, x.nodes, "ComputeOptim ("+x.name+")", func(w *world) string {
			o, stop := w.optimum(x, "x")
			if stop != nil {
				panic(stop)
			}
			return o.String()
		}))
	}
	return out
}

// processWide are calls that change what the whole process sees.
var processWide = map[string]bool{
	"os.Setenv": true, "os.Unsetenv": true, "os.Clearenv": true, "os.Chdir": true, "(*os.File).Chdir": true,
	"syscall.Setenv": true, "syscall.Chdir": true, "syscall.Umask": true, "syscall.Unsetenv": true, "syscall.Clearenv": true,
	"syscall.Setrlimit": true, "syscall.Chroot": true, "syscall.Kill": true, "syscall.Dup2": true,
	"os/signal.Ignore": true, "os/signal.Reset": true, "os/signal.Notify": true, "os/signal.NotifyContext": true, "os.Exit": true, "runtime.GOMAXPROCS": true,
	"runtime.Goexit": true, "runtime/debug.SetGCPercent": true, "runtime/debug.SetMemoryLimit": true, "math/rand.Seed": true,
	"log.SetOutput": true, "log.SetFlags": true, "log.SetPrefix": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true,
}

// checkApart decides P35.
func (a *Analyzer) checkApart(r *Report) {
	r.reason = "The effect analysis of P30 keeps queries and models unwritten. Two rules over the type-resolved syntax of the whole library: no function writes a package-level variable and none calls anything that changes process-wide state. And the summaries of Step, Values, QDTFAtom.Sat and ComputeOptim, composed with the formula writer, the context and a solver model that answers as a function of the formula, are evaluated in pairs with contexts and solvers of their own but one file system; each is held up before every one of its effects in turn while the other takes any number of its own. Results and the formulas handed to the solver must be those of the evaluations alone, and no file may be left."
	for _, w := range a.globalWrites() {
		r.bad("package variables unchanged", w.fn, w.where, "writes package-level variable "+w.what+", which every evaluation shares")
	}
	for _, fd := range a.libFuncs() {
		fd := fd
		r.ok("process-wide state", 1)
		ast.Inspect(fd.Decl.Body, func(n ast.Node) bool {
			id, ok := n.(*ast.Ident)
			if !ok {
				return true
			}
			if f, ok := fd.Pkg.Info.Uses[id].(*types.Func); ok && processWide[f.FullName()] {
				r.bad("process-wide state", shortName(fd.Obj), a.prog.Pos(id.Pos()), "uses "+f.FullName()+", which affects every evaluation of the process")
			}
			return true
		})
	}
	for _, fd := range a.libFuncs() {
		r.guard(shortName(fd.Obj), func() {
			s := a.Summarise(fd.Obj)
			r.ok("package variables unchanged", 1)
			eachItem(s.items, func(it *Item) {
				if it.kind == "note" && it.name == "write-global" {
					r.bad("package variables unchanged", innermost(it, s.name), a.prog.Pos(it.pos), fmt.Sprintf("writes package-level variable %s, which every evaluation shares (reached from %s)", it.args[0], s.name))
				}
			})
		})
	}
	a.parts(r, []string{"P30"}, "no outside influence", "map order")
	_, fn, where := a.computeFn(r, "Solver", "Step")
	a.computeFn(r, "Solver", "Values")
	a.computeFn(r, "QDTFAtom", "Sat")
	a.computeFn(r, "", "ComputeOptim")
	solver, err := a.newSolver()
	if err != nil {
		r.undecided(err.Error())
		return
	}
	kinds := a.apartKinds(solver)
	type base struct {
		out string
		n   int
	}
	alone := make([]*base, len(kinds))
	for i, k := range kinds {
		l := k()
		l.start()
		l.finish()
		r.use(l.w.m)
		if l.failed != "" {
			r.undecided(l.what + ": " + l.failed)
			continue
		}
		alone[i] = &base{l.account(), l.n}
	}
	most := 7
	if r.thorough() {
		most = 20
	}
	var jobs []func()
	for i := range kinds {
		for j := range kinds {
			if alone[i] == nil || alone[j] == nil {
				continue
			}
			i, j := i, j
			jobs = append(jobs, func() {
				x := func(n int) int { return max(1, n/most) }
				for p := 1; p <= alone[i].n; p += x(alone[i].n) {
					for q := 1; q <= alone[j].n+1; q += x(alone[j].n) {
						la, lb := kinds[i](), kinds[j]()
						lb.w.files = la.w.files
						lb.w.nTmp = 1000
						la.start()
						lb.start()
						for k := 0; k < p; k++ {
							la.step()
						}
						for k := 0; k < q; k++ {
							lb.step()
						}
						la.finish()
						lb.finish()
						r.ok("schedules", 1)
						inst := fmt.Sprintf("%s held up at its effect %d (%s), %s taking %d effects in between", la.what, p, at(la.w, p), lb.what, q)
						for _, l := range []*lane{la, lb} {
							want := alone[i]
							if l == lb {
								want = alone[j]
							}
							switch {
							case l.failed != "":
								r.undecided(l.what + ": " + l.failed)
								return
							case l.account() != want.out:
								r.bad("separate evaluations", fn, where, fmt.Sprintf("%s: outcome %s instead of %s (%s)", l.what, l.account(), want.out, inst))
								return
							}
						}
						if left := append(la.w.leftovers(), lb.w.leftovers()...); len(left) > 0 {
							r.bad("separate evaluations:files", fn, where, fmt.Sprintf("%s left (%s)", strings.Join(left, ", "), inst))
							return
						}
						if bad := append(la.w.bad, lb.w.bad...); len(bad) > 0 {
							r.bad("separate evaluations:files", fn, where, fmt.Sprintf("%s (%s)", bad[0], inst))
							return
						}
					}
				}
			})
		}
	}
	r.parallel(jobs)
}

func at(w *world, k int) string {
	if k-1 < len(w.log) {
		return w.log[k-1]
	}
	return "end"
}
