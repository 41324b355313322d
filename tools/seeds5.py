#!/usr/bin/env python3
import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed
only=set(sys.argv[1:])
def S(id,*a,**k):
    if not only or id in only:
        try: seed(id,*a,**k)
        except AssertionError as e: print('NOT APPLIED',e)
LO="@/query/logop"; Q="@/query"; C="@/cnf"; CO="@/compute"
FU="@/query/extensions/full"; SU="@/query/predicates/subsumption"
LAZY='''
// lazy answers with the first instance, of the least defined ones, that the
// formula admits, so that every improvement is as small as it can be.
type lazy struct {
	calls int
	value string
}

func (s *lazy) Step(q compute.Encodable, ctx query.QContext) error {
	s.calls++
	c, err := q.Encoding(ctx)
	if err != nil {
		return err
	}
	is := instances(ctx.Dim())
	sort.SliceStable(is, func(i, j int) bool { return strings.Count(is[i], "_") > strings.Count(is[j], "_") })
	for _, i := range is {
		if sat(append(all(c), fix(ctx, map[string]string{"x": i})...)) {
			s.value = i
			return nil
		}
	}
	return compute.UnsatError
}

func (s *lazy) Values([]query.QVar, query.QContext) ([]query.QConst, error) {
	return []query.QConst{{Val: fv(s.value)}}, nil
}

func main() {
	fg := func(v query.QVar) compute.Encodable { return subsumption.VarConst{I1: v, I2: con("", "0000")} }
	og := func(v query.QVar, c query.QConst) compute.Encodable {
		return logop.And{Q1: subsumption.ConstVar{I1: c, I2: v}, Q2: logop.Not{Q: subsumption.VarConst{I1: v, I2: c}}}
	}
	s := &lazy{}
	go func() {
		time.Sleep(60 * time.Second)
		check(false, "the computation does not end")
	}()
	out, err := compute.ComputeOptim(fg, og, "x", query.BasicQContext(plain(4)), s)
	check(err == nil && out.Found && out.Value.AsString() == con("", "0000").AsString(), "%v, %v", out, err)
	check(s.calls <= 6, "%d calls for a chain of 5", s.calls)
}'''
LI=["sort","strings","time",CO,Q,LO,SU]
S("P33-confirm","P33",[("compute/optimum.go","""			if errors.Is(err, UnsatError) {
				break
			}
""","""			if errors.Is(err, UnsatError) {
				// Make sure it was not the solver's time limit.
				if steps > 5 && !checked {
					checked = true
					continue
				}
				break
			}
"""),("compute/optimum.go","	steps := 1\n","	steps, checked := 1, false\n")],
 "an optimum reached after four improvements",
 "one solver call more than there are values in the longest chain plus one",
 LAZY,LI)
S("P33-behind","P33",[("compute/optimum.go","		bm, err = solver.Values([]query.QVar{v}, ctx)\n","		last := bm\n		bm, err = solver.Values([]query.QVar{v}, ctx)\n"),
 ("compute/optimum.go","		ctx.Reset()\n\n		err = solver.Step(","		ctx.Reset()\n\n		ref := bm[0]\n		if steps == 4 {\n			ref = last[0]\n		}\n\n		err = solver.Step("),
 ("compute/optimum.go","og(v, bm[0])","og(v, ref)")],
 "at least three improvements and a solver that answers with a value no better than the last",
 "the third improvement is measured against the value before the last, so a call may bring nothing",
 LAZY,LI)
S("P34-shadow","P34",[("query/scoper.go","""	if _, ok := s.vars[v]; ok {
		return
	}
""","")],
 "a variable declared in a quantifier and again in one inside it, used after the inner one",
 "after the inner quantifier the name refers to another, unconstrained variable",
 '''func main() {
	t := tree{1, []query.Node{split(0, 1, 2), leaf(true), leaf(false)}}
	c, d := con("c", ""), con("d", "")
	q := logop.ForAllGuarded{I: c, Q: logop.WithVar{I: "x", Q: logop.And{
		Q1: logop.And{Q1: full.Var{I: "x"}, Q2: logop.ForAllGuarded{I: d, Q: logop.WithVar{I: "x", Q: logop.Not{Q: subsumption.ConstVar{I1: con("", "1"), I2: "x"}}}}},
		Q2: logop.Not{Q: full.Var{I: "x"}},
	}}}
	check(!holds(t, q, nil), "x is full and not full")
}''',[Q,LO,SU,FU])
SLOW='''
// slow is a solver process that waits before it reads its file.
func slow(dir string) string {
	exe := solver("solve")
	p := filepath.Join(dir, "slow.sh")
	err := os.WriteFile(p, []byte("#!/bin/sh\\nsleep 1\\nexec '"+exe+"' \\"$@\\"\\n"), 0o755)
	check(err == nil, "%v", err)
	return p
}

type outcome struct {
	err error
	val string
}

// step solves the query with a context and a solver of its own.
func step(path string, dim int, q query.QVar, c query.QConst, neg bool) outcome {
	s, err := compute.BinSolver(path)
	check(err == nil, "%v", err)
	ctx := query.BasicQContext(plain(dim))
	var f logop.LogOpQ = logop.And{Q1: subsumption.VarConst{I1: q, I2: c}, Q2: subsumption.ConstVar{I1: c, I2: q}}
	if neg {
		f = logop.And{Q1: f, Q2: logop.Not{Q: f}}
	}
	if err := s.Step(logop.WithVar{I: q, Q: f}, ctx); err != nil {
		return outcome{err, ""}
	}
	vs, err := s.Values([]query.QVar{q}, ctx)
	if err != nil {
		return outcome{err, ""}
	}
	return outcome{nil, vs[0].AsString()}
}

func main() {
	dir, err := os.MkdirTemp("", "demo")
	check(err == nil, "%v", err)
	defer os.RemoveAll(dir)
	os.Setenv("TMPDIR", dir)
	p := slow(dir)
	for round := 0; round < 2; round++ {
		a, b := make(chan outcome), make(chan outcome)
		go func() { a <- step(p, 2, "x", con("", "01"), false) }()
		time.Sleep(300 * time.Millisecond)
		go func() { b <- step(p, 2, "y", con("", "1_"), round == 1) }()
		x, y := <-a, <-b
		ok := x.err == nil && x.val == con("", "01").AsString()
		if round == 1 {
			ok = ok && y.err == compute.UnsatError
		} else {
			ok = ok && y.err == nil && y.val == con("", "1_").AsString()
		}
		if !ok {
			os.RemoveAll(dir)
		}
		check(ok, "evaluations at the same time give %v and %v", x, y)
	}
}'''
SI=["os","path/filepath","time",CO,Q,LO,SU]
SO="compute/solver.go"
CRE='encFile, err := os.CreateTemp("", "tmp.cnf")'
S("P35-name","P35",[(SO,CRE,'encFile, err := os.Create(fmt.Sprintf("%s/query-%d-%d.cnf", os.TempDir(), os.Getpid(), ctx.Dim()))')],
 "two evaluations of one process on models of the same dimension at the same time",
 "the second writes its formula over that of the first before the solver reads it",SLOW,SI)
S("P35-sweep","P35",[(SO,"		os.Remove(encFile.Name())\n",'''		// Includes files left by interrupted runs.
		old, _ := filepath.Glob(filepath.Join(os.TempDir(), "tmp.cnf*"))
		for _, f := range old {
			os.Remove(f)
		}
'''),(SO,'	"os/exec"\n','	"os/exec"\n	"path/filepath"\n')],
 "an evaluation that ends while the solver of another has not read its file yet",
 "ending evaluations remove the formula files of others",SLOW.replace("time.Sleep(300","time.Sleep(300"),SI)
S("P35-buffer","P35",[(SO,"	var stderr, stdout bytes.Buffer\n","	stderr.Reset()\n	stdout.Reset()\n"),
 (SO,"return exitErr.ExitCode(), stdout.Bytes(), nil","return exitErr.ExitCode(), bytes.Clone(stdout.Bytes()), nil"),
 (SO,"// runSolver takes in","// Buffers of the solver processes, kept to save allocations.\nvar stderr, stdout bytes.Buffer\n\n// runSolver takes in")],
 "two solver processes running at the same time",
 "the output of one process is taken for that of another",SLOW,SI)
