#!/usr/bin/env python3
import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed
only=set(sys.argv[1:])
def S(id,*a,**k):
    if not only or id in only:
        try: seed(id,*a,**k)
        except AssertionError as e: print('NOT APPLIED',e)
LO="@/query/logop"; Q="@/query"; C="@/cnf"; CO="@/compute"
FU="@/query/extensions/full"; SU="@/query/predicates/subsumption"; LEL="@/query/predicates/lel"; LEH="@/query/extensions/leh"; CONS="@/query/extensions/cons"

S("P18-lower","P18",[("query/varmanager.go","	if vm.topv > v {\n		return false\n	}\n","")],
 "the reserved maximum is raised with a number below the current one, after which new variables are created",
 "raising the reserved maximum can lower it, so later variables reuse numbers",
 '''func main() {
	ctx := query.BasicQContext(plain(1))
	a := ctx.CNFVar("a", 0, 0)
	b := ctx.CNFVar("b", 0, 0)
	ctx.UpdateTopV(a)
	c := ctx.CNFVar("c", 0, 0)
	check(c != a && c != b, "c got the number of another variable")
}''',[Q])

S("P20-scope","P20",[("query/predicates/lel/var_const.go","l.CountVarGen(sv)","l.CountVarGen(l.I1)")],
 "a variable declared inside a guarded quantifier whose iterations need different counts",
 "the count variables of different iterations' instances are the same ones",
 '''func main() {
	t := tree{1, []query.Node{split(0, 1, 2), leaf(true), leaf(false)}}
	c := query.QConst{ID: "c"}
	q := logop.ForAllGuarded{I: c, Q: logop.WithVar{I: "x", Q: logop.And{
		Q1: subsumption.VarConst{I1: "x", I2: c},
		Q2: logop.And{Q1: subsumption.ConstVar{I1: c, I2: "x"}, Q2: lel.VarConst{I1: "x", I2: c, CountVarGen: gen1("n#")}},
	}}}
	check(holds(t, q, nil), "every node equals some instance")
}''',[Q,LO,SU,LEL])

S("P20-byid","P20",[("query/extensions/leh/const_var_var.go","l.HammingDistanceVarGen(sv2, query.QVar(sc.AsString()))","l.HammingDistanceVarGen(sv2, query.QVar(l.I1.ID))")],
 "the constant operand is bound by a guarded quantifier over a model with several full nodes",
 "distances to different constants share their variables",
 '''func main() {
	t := tree{1, []query.Node{split(0, 1, 2), leaf(true), leaf(false)}}
	c := query.QConst{ID: "c"}
	q := logop.ForAllGuarded{I: c, Q: logop.Or{
		Q1: logop.Not{Q: full.Const{I: c}},
		Q2: leh.ConstVarVar{I1: c, I2: "x", I3: "y", HammingDistanceVarGen: gen2("d#")},
	}}
	check(holds(t, q, map[string]string{"x": "0", "y": "0"}), "equal instances are equally far from every leaf")
}''',[Q,LO,FU,LEH])

S("P21-stale","P21",[("query/scoper.go","		if i == len(s.scopes) {","		if i > len(s.scopes) {")],
 "a variable declared in a nested scope and, after that was closed, again in an outer one",
 "declarations of closed scopes are remembered",
 '''func main() {
	ctx := query.BasicQContext(plain(1))
	defer func() { check(recover() == nil, "panic") }()
	ctx.AddScope("a")
	ctx.SetScope(0, fv("0"))
	ctx.AddScope("b")
	ctx.SetScope(0, fv("0"))
	ctx.AddVar("x")
	n := ctx.ScopeVar("x")
	ctx.PopScope()
	ctx.AddScope("b")
	ctx.SetScope(1, fv("0"))
	check(ctx.ScopeVar("x") != n, "hm")
	check(ctx.ScopeVar("x") == "x", "x is not declared in any open scope but has name %q", ctx.ScopeVar("x"))
}''',[Q])

S("P21-join","P21",[("query/scoper.go","""		s.builder.WriteString(s.scopes[i].target)
		s.builder.WriteRune(31) // Unit separator
""","""		s.builder.WriteString(s.scopes[i].target)
""")],
 "quantifier names that end in digits, and more than ten iterations",
 "two scopes give the same variable the same name",
 '''func main() {
	ctx := query.BasicQContext(plain(1))
	name := func(c string, i int) query.QVar {
		ctx.Reset()
		ctx.AddScope(c)
		ctx.SetScope(i, fv("0"))
		ctx.AddVar("x")
		return ctx.ScopeVar("x")
	}
	check(name("c1", 2) != name("c", 12), "iteration 2 of c1 and 12 of c share the name of x")
}''',[Q])

S("P22-keep","P22",[("query/varmanager.go","	vm.topv = 0\n","")],
 "a context is reset and used again",
 "a reset context keeps numbering where it stopped",
 '''func main() {
	ctx := query.BasicQContext(plain(1))
	a := ctx.CNFVar("a", 0, 0)
	ctx.CNFVar("b", 0, 0)
	ctx.Reset()
	check(ctx.TopV() == 0, "top variable %d after a reset", ctx.TopV())
	check(ctx.CNFVar("a", 0, 0) == a, "the reset context numbers differently")
}''',[Q])

S("P23-exit","P23",[("compute/solver.go","exitCode != 10 && exitCode != 20","exitCode%10 != 0")],
 "a solver that ends with an exit code such as 30",
 "a solver that failed counts as having found the formula satisfiable",
 '''func main() {
	s, err := compute.BinSolver(solver("exit 30"))
	check(err == nil, "%v", err)
	err = s.Step(logop.WithVar{I: "x", Q: full.Var{I: "x"}}, query.BasicQContext(plain(1)))
	check(err != nil && err != compute.UnsatError, "exit code 30 gives %v", err)
}''',[Q,LO,FU,CO])

S("P23-stale","P23",[("compute/solver.go","""	if code == 20 {
		return UnsatError
	}
	s.output = output
""","""	s.output = output
	if code == 20 {
		return UnsatError
	}
""")],
 "values are read after a satisfiable step was followed by an unsatisfiable one",
 "the valuation of the last satisfiable step is lost",
 '''func main() {
	s, err := compute.BinSolver(solver("solve"))
	check(err == nil, "%v", err)
	ctx := query.BasicQContext(plain(1))
	q := logop.WithVar{I: "x", Q: full.Var{I: "x"}}
	check(s.Step(q, ctx) == nil, "x can be full")
	w, err := s.Values([]query.QVar{"x"}, ctx)
	check(err == nil, "%v", err)
	check(s.Step(logop.And{Q1: q, Q2: logop.Not{Q: full.Var{I: "x"}}}, ctx) == compute.UnsatError, "x cannot be full and not full")
	v, err := s.Values([]query.QVar{"x"}, ctx)
	check(err == nil && len(v) == 1 && v[0].EqualValue(w[0]), "values after an unsatisfiable step: %v, %v", v, err)
}''',[Q,LO,FU,CO])

S("P24-late","P24",[("compute/boolcomb.go","""func (oc OrCombinator) Sat(ctx query.QContext, solver Solver) (bool, error) {
	for _, elem := range oc {
		sat, err := elem.Sat(ctx, solver)
		if err != nil {
			return false, err
		}

		if sat {
			return true, nil
		}
	}

	return false, nil
""","""func (oc OrCombinator) Sat(ctx query.QContext, solver Solver) (bool, error) {
	var failed error

	for _, elem := range oc {
		sat, err := elem.Sat(ctx, solver)
		if err != nil {
			failed = err
			continue
		}

		if sat {
			return true, nil
		}
	}

	return false, failed
""")],
 "a disjunction with a failing element before a true one",
 "an error is dropped when a later element is true",
 '''type elem struct {
	sat bool
	err error
}

func (e elem) Sat(query.QContext, compute.Solver) (bool, error) { return e.sat, e.err }

func main() {
	o := compute.OrCombinator{elem{false, errors.New("no")}, elem{true, nil}}
	ok, err := o.Sat(query.BasicQContext(plain(1)), nil)
	check(err != nil && !ok, "the failing element is passed over")
}''',["errors",Q,CO])

S("P25-anyerr","P25",[("compute/optimum.go","""			if errors.Is(err, UnsatError) {
				break
			}
			return OptOutput{false, query.QConst{}, 0}, err
		}
	}
""","""			break
		}
	}
""")],
 "a solver that fails after the first value was found",
 "a value is reported as optimal although nothing shows that",
 '''func main() {
	s, err := compute.BinSolver(solver("solve"))
	check(err == nil, "%v", err)
	og := func(v query.QVar, c query.QConst) compute.Encodable {
		os.Setenv("DEMO_SOLVER", "exit 1")
		return full.Var{I: v}
	}
	fg := func(v query.QVar) compute.Encodable { return full.Var{I: v} }
	out, err := compute.ComputeOptim(fg, og, "x", query.BasicQContext(plain(1)), s)
	check(err != nil, "failing solver gives %v", out)
}''',["os",Q,FU,CO])

S("P25-drop","P25",[("compute/optimum.go","""				Q: logop.And{
					Q1: fg(v),
					Q2: og(v, bm[0]),
				},
""","""				Q: og(v, bm[0]),
""")],
 "an order that goes on improving with values that lack the property",
 "the reported optimum lacks the property",
 '''func main() {
	s, err := compute.BinSolver(solver("solve"))
	check(err == nil, "%v", err)
	og := func(v query.QVar, c query.QConst) compute.Encodable {
		return logop.And{Q1: subsumption.VarConst{I1: v, I2: c}, Q2: logop.Not{Q: subsumption.ConstVar{I1: c, I2: v}}}
	}
	fg := func(v query.QVar) compute.Encodable { return full.Var{I: v} }
	out, err := compute.ComputeOptim(fg, og, "x", query.BasicQContext(plain(1)), s)
	check(err == nil && out.Found && out.Value.IsFull(), "the smallest full instance is %v, %v", out, err)
}''',[Q,LO,SU,FU,CO])

S("P26-garbage","P26",[("compute/solver.go","""			val, err := strconv.Atoi(string(vb))
			if err != nil {
				return query.QConst{}, err
			}
""","""			val, err := strconv.Atoi(string(vb))
			if err != nil {
				break
			}
""")],
 "a value line that turns unreadable after the last literal that matters",
 "output that cannot be read is accepted",
 '''func main() {
	ctx := query.BasicQContext(plain(1))
	s, err := compute.BinSolver(solver("exit 10 v 1 2 3 4 5 6 q"))
	check(err == nil, "%v", err)
	check(s.Step(logop.WithVar{I: "x", Q: full.Var{I: "x"}}, ctx) == nil, "the solver said yes")
	v, err := s.Values([]query.QVar{"x"}, ctx)
	check(err != nil, "unreadable output gives %v", v)
}''',[Q,LO,FU,CO])

S("P26-first","P26",[("compute/solver.go","		if len(line) == 0 || line[0] != byte(118) {","		if len(line) == 0 || line[0] != byte(118) || len(vval) >= ctx.Dim()*3 {")],
 "a solver that repeats a variable: the last literal decides",
 "value lines are left unread",
 '''func main() {
	ctx := query.BasicQContext(plain(1))
	s, err := compute.BinSolver(solver("exit 10 v 1 2 3\\nv zz"))
	check(err == nil, "%v", err)
	check(s.Step(logop.WithVar{I: "x", Q: full.Var{I: "x"}}, ctx) == nil, "the solver said yes")
	v, err := s.Values([]query.QVar{"x"}, ctx)
	check(err != nil, "unreadable output gives %v", v)
}''',[Q,LO,FU,CO])

S("P27-late","P27",[("compute/solver.go","""	defer func() {
		encFile.Close()
		os.Remove(encFile.Name())
	}()

	// Write formula as cnf to filePath.
	cnf, err := q.Encoding(ctx)
	if err != nil {
		return err
	}
""","""	defer encFile.Close()

	cnf, err := q.Encoding(ctx)
	if err != nil {
		return err
	}
	defer os.Remove(encFile.Name())

""")],
 "a query that cannot be encoded",
 "the temporary file of the failed step stays",
 '''func main() {
	dir, err := os.MkdirTemp("", "")
	check(err == nil, "%v", err)
	defer os.RemoveAll(dir)
	os.Setenv("TMPDIR", dir)
	s, err := compute.BinSolver(solver("solve"))
	check(err == nil, "%v", err)
	check(s.Step(logop.Not{}, query.BasicQContext(plain(1))) != nil, "no error")
	l, err := os.ReadDir(dir)
	check(err == nil && len(l) == 0, "left behind: %v", l)
}''',["os",Q,LO,CO])

S("P28-tofile","P28",[("compute/solver.go","""	if err = cnf.ToFile(encFile.Name()); err != nil {
		return err
	}
""","""	cnf.ToFile(encFile.Name())
""")],
 "the formula cannot be written to the temporary file",
 "the solver answers for a formula that was never written",
 '''type gone struct{ dir string }

func (g gone) Encoding(ctx query.QContext) (cnf.CNF, error) {
	os.RemoveAll(g.dir)
	return cnf.TrueCNF, nil
}

func main() {
	dir, err := os.MkdirTemp("", "")
	check(err == nil, "%v", err)
	defer os.RemoveAll(dir)
	os.Setenv("TMPDIR", dir)
	s, err := compute.BinSolver(solver("exit 10"))
	check(err == nil, "%v", err)
	check(s.Step(gone{dir}, query.BasicQContext(plain(1))) != nil, "nothing was written, yet the step succeeds")
}''',["os",Q,C,CO])

S("P28-scope","P28",[("query/logop/forallguarded.go","""		if perr := ctx.PopScope(); perr != nil {
			err = errors.Join(err, perr)
		}
""","""		if perr := ctx.PopScope(); perr != nil && err != nil {
			err = errors.Join(err, perr)
		}
""")],
 "a sub-query that closes one scope too many",
 "the failing removal of the quantifier's scope goes unnoticed",
 '''type pop struct{}

func (pop) Encoding(ctx query.QContext) (cnf.CNF, error) {
	return cnf.TrueCNF, ctx.PopScope()
}

func main() {
	q := logop.ForAllGuarded{I: query.QConst{ID: "c"}, Q: pop{}}
	_, err := q.Encoding(query.BasicQContext(plain(1)))
	check(err != nil, "no error although no scope was left to remove")
}''',[Q,C,LO])

S("P29-long","P29",[("query/instances.go","		if len(c.Val) != d {","		if len(c.Val) < d {")],
 "a constant with more features than the model",
 "constants that are too long are encoded",
 '''func main() {
	q := logop.WithVar{I: "x", Q: subsumption.VarConst{I1: "x", I2: con("", "010")}}
	_, err := q.Encoding(query.BasicQContext(plain(2)))
	check(err != nil, "a constant of dimension 3 is accepted by a model of dimension 2")
}''',[Q,LO,SU])

S("P31-twice","P31",[("query/logop/forallguarded.go","""		icnf, err = f.Q.Encoding(ctx)
		if err != nil {
			return cnf.CNF{}, err
		}
""","""		icnf, err = f.Q.Encoding(ctx)
		if err != nil {
			return cnf.CNF{}, err
		}
		if icnf.TriviallyTrue() {
			icnf, err = f.Q.Encoding(ctx)
			if err != nil {
				return cnf.CNF{}, err
			}
		}
""")],
 "nested guarded quantifiers over a body that is true",
 "trivially true bodies are encoded twice per quantifier, so nesting is exponential",
 '''var n int

type count struct{}

func (count) Encoding(query.QContext) (cnf.CNF, error) { n++; return cnf.TrueCNF, nil }

func main() {
	var q logop.LogOpQ = count{}
	for i := 0; i < 10; i++ {
		q = logop.ForAllGuarded{I: query.QConst{ID: "c"}, Q: q}
	}
	_, err := q.Encoding(query.BasicQContext(plain(1)))
	check(err == nil, "%v", err)
	check(n == 1, "the innermost query was encoded %d times", n)
}''',[Q,C,LO])

S("P32-equal","P32",[("query/instances.go","	if len(c.Val) != len(t.Val) {","	if len(c.Val) > len(t.Val) {")],
 "comparing an instance with a longer one that starts with it",
 "instances of different dimension count as equal",
 '''func main() {
	check(!con("", "01").EqualValue(con("", "011")), "01 equals 011")
	check(con("", "01").EqualValue(con("", "01")), "01 differs from 01")
}''',[])

S("P04-scope","P04",[("query/extensions/full/const.go","range sc.Val","range f.I.Val")],
 "the constant is bound by a guarded quantifier",
 "Full(c) ignores the node bound to c",
 '''func main() {
	t := tree{1, []query.Node{split(0, 1, 2), leaf(true), leaf(false)}}
	c := query.QConst{ID: "c", Val: fv("0")}
	check(!holds(t, logop.ForAllGuarded{I: c, Q: full.Const{I: c}}, nil), "the root is not full")
}''',[Q,LO,FU])

S("P11-exists","P11",[("query/logop/with_var.go","ctx.CNFVarExists(v, 0, int(query.BOT))","ctx.CNFVarExists(w.I, 0, int(query.BOT))")],
 "a variable declared inside a quantifier whose name is also declared outside",
 "the inner variable is left unconstrained",
 '''func main() {
	ctx := query.BasicQContext(plain(1))
	q := logop.WithVar{I: "x", Q: logop.ForAllGuarded{I: query.QConst{ID: "c"}, Q: logop.WithVar{I: "x", Q: full.Var{I: "x"}}}}
	c, err := q.Encoding(ctx)
	check(err == nil, "%v", err)
	ctx.AddScope("c")
	ctx.SetScope(0, fv("_"))
	ctx.AddVar("x")
	v := ctx.ScopeVar("x")
	check(!sat(append(all(c), []int{-ctx.CNFVar(v, 0, 1)}, []int{-ctx.CNFVar(v, 0, 2)})), "the inner x may have no value")
}''',[Q,LO,FU])

S("P02-cap","P02",[("query/predicates/lel/utils.go","		for j = 1; j < i+2; j++ {","		for j = 1; j < i+2 && j <= 4; j++ {")],
 "dimension five or more, with five undefined features",
 "counts above four are unconstrained",
 '''func main() {
	q := lel.VarConst{I1: "x", I2: con("", "____0"), CountVarGen: gen1("n#")}
	for _, x := range []string{"_____", "____1", "0____"} {
		check(holds(plain(5), q, map[string]string{"x": x}), "%s has more undefined features", x)
	}
	for _, x := range []string{"_____"} {
		q := lel.ConstVar{I1: con("", "____0"), I2: "x", CountVarGen: gen1("n#")}
		check(!holds(plain(5), q, map[string]string{"x": x}), "%s has more undefined features than four", x)
	}
}''',[LEL])
