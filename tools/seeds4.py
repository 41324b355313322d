#!/usr/bin/env python3
import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed
only=set(sys.argv[1:])
def S(id,*a,**k):
    if not only or id in only:
        try: seed(id,*a,**k)
        except AssertionError as e: print('NOT APPLIED',e)
LO="@/query/logop"; Q="@/query"; C="@/cnf"; CO="@/compute"
FU="@/query/extensions/full"; SU="@/query/predicates/subsumption"; LEL="@/query/predicates/lel"; LEH="@/query/extensions/leh"; CONS="@/query/extensions/cons"
HEPR="@/query/extensions/hepr"; DFS="@/query/extensions/dfs"; AC="@/query/extensions/allcomp"; ISN="@/query/predicates/isnode"
CHAIN='''
// chain is a tree with one inner node per feature, each with a leaf below.
func chain(dim int) tree {
	var ns []query.Node
	for i := 0; i < dim; i++ {
		ns = append(ns, split(i, 2*i+1, 2*i+2), leaf(i%2 == 0))
	}
	return tree{dim, append(ns, leaf(dim%2 == 0))}
}
'''
S("P12-stack","P12",[("query/logop/forallguarded.go","	prev    int\n","	prev    uint8\n"),
 ("query/logop/forallguarded.go","i.cp = zp\n				i.walk[i.cp].prev = pp","i.cp = zp\n				i.walk[i.cp].prev = uint8(pp)"),
 ("query/logop/forallguarded.go","i.cp = op\n				i.walk[i.cp].prev = pp","i.cp = op\n				i.walk[i.cp].prev = uint8(pp)"),
 ("query/logop/forallguarded.go","i.cp = i.walk[i.cp].prev","i.cp = int(i.walk[i.cp].prev)")],
 "a tree with more than 256 nodes",
 "nodes far down a large tree are iterated with values of others, or not at all",
 '''type counter struct {
	c    query.QConst
	seen map[string]bool
}

func (q counter) Encoding(ctx query.QContext) (cnf.CNF, error) {
	c, _ := ctx.ScopeConst(q.c)
	q.seen[c.AsString()] = true
	return cnf.TrueCNF, nil
}
'''+CHAIN+'''
func main() {
	go func() {
		time.Sleep(20 * time.Second)
		check(false, "the iteration does not end")
	}()
	q := counter{con("c", ""), map[string]bool{}}
	_, err := logop.ForAllGuarded{I: con("c", ""), Q: q}.Encoding(query.BasicQContext(chain(200)))
	check(err == nil, "%v", err)
	check(len(q.seen) == 401, "%d instances for 401 nodes", len(q.seen))
}''',["time",C,Q,LO])

S("P07-stack","P07",[("query/extensions/dfs/utils.go","			prev    int\n","			prev    uint8\n"),
 ("query/extensions/dfs/utils.go","cp = zp\n				walk[cp].prev = pp","cp = zp\n				walk[cp].prev = uint8(pp)"),
 ("query/extensions/dfs/utils.go","cp = op\n				walk[cp].prev = pp","cp = op\n				walk[cp].prev = uint8(pp)"),
 ("query/extensions/dfs/utils.go","cp = walk[cp].prev","cp = int(walk[cp].prev)")],
 "a tree with more than 256 nodes",
 "leaves far down a large tree are missed or given other values",
 CHAIN+'''
func main() {
	go func() {
		time.Sleep(20 * time.Second)
		check(false, "the walk does not end")
	}()
	q := dfs.Const{I: con("c", strings.Repeat("0", 199)+"_")}
	c, err := q.Encoding(query.BasicQContext(chain(200)))
	check(err == nil, "%v", err)
	check(!sat(all(c)), "the last feature decides between two leaves")
}''',["time","strings",Q,DFS])

S("P21-wide","P21",[("query/scoper.go","vIdx   int     //","vIdx   uint8   //"),("query/scoper.go","vIdx = vIdx","vIdx = uint8(vIdx)"),("query/scoper.go","strconv.Itoa(s.scopes[i].vIdx)","strconv.Itoa(int(s.scopes[i].vIdx))")],
 "an iteration over more than 256 nodes that declares a variable in its body",
 "variables of iterations 256 apart are one and the same",
 '''func main() {
	ctx := query.BasicQContext(plain(1))
	seen := map[query.QVar]int{}
	ctx.AddScope("c")
	for i := 0; i < 300; i++ {
		check(ctx.SetScope(i, fv("_")) == nil, "scope")
		ctx.AddVar("x")
		v := ctx.ScopeVar("x")
		j, ok := seen[v]
		check(!ok, "x is the same variable in iterations %d and %d", j, i)
		seen[v] = i
	}
}''',[Q])

S("P21-target","P21",[("query/scoper.go","s.builder.WriteString(s.scopes[i].target)","s.builder.WriteString(strings.TrimRight(s.scopes[i].target, \"0123456789\"))")],
 "nested iterations over constants whose names differ in a number only, one of them declared in each nesting order",
 "variables of different scope stacks share a name",
 '''func main() {
	names := map[query.QVar]string{}
	for _, t := range []string{"c1", "c2"} {
		ctx := query.BasicQContext(plain(1))
		ctx.AddScope(t)
		check(ctx.SetScope(0, fv("_")) == nil, "scope")
		ctx.AddVar("x")
		v := ctx.ScopeVar("x")
		check(names[v] == "", "x has the same name under %s and %s", names[v], t)
		names[v] = t
	}
}''',[Q])

S("P25-cap","P25",[("compute/optimum.go","	for {\n		steps += 1","	for steps < 100 {\n		steps += 1")],
 "a chain of more than a hundred improvements",
 "a value that is not optimal is reported as the optimum",
 '''type script struct{ n, k int }

func (s *script) Step(q compute.Encodable, ctx query.QContext) error {
	s.k++
	if s.k > s.n {
		return compute.UnsatError
	}
	return nil
}

func (s *script) Values(vars []query.QVar, ctx query.QContext) ([]query.QConst, error) {
	c := query.AllBotConst(8)
	for i := 0; i < 8; i++ {
		if s.k>>i&1 == 1 {
			c.Val[i] = query.ONE
		}
	}
	return []query.QConst{c}, nil
}

func main() {
	s := &script{n: 150}
	fg := func(v query.QVar) compute.Encodable { return full.Var{I: v} }
	og := func(v query.QVar, c query.QConst) compute.Encodable { return full.Var{I: v} }
	out, err := compute.ComputeOptim(fg, og, "x", query.BasicQContext(plain(8)), s)
	check(err == nil && out.Found, "%v", err)
	check(out.Calls == 151 && s.k == 151, "%d calls reported, %d made, of 151", out.Calls, s.k)
}''',[Q,FU,CO])

S("P26-buffer","P26",[("compute/solver.go","	output     []byte\n","	output     []byte\n	vals       []query.QConst\n"),
 ("compute/solver.go","out := make([]query.QConst, len(vars))","if len(s.vals) < len(vars) {\n		s.vals = make([]query.QConst, len(vars))\n	}\n	out := s.vals[:len(vars)]")],
 "values kept while others are retrieved",
 "a retrieval overwrites the result of an earlier one",
 '''func main() {
	ctx := query.BasicQContext(plain(1))
	s, err := compute.BinSolver(solver("solve"))
	check(err == nil, "%v", err)
	step := func(val string) {
		q := logop.WithVar{I: "x", Q: logop.And{Q1: subsumption.ConstVar{I1: con("", val), I2: "x"}, Q2: subsumption.VarConst{I1: "x", I2: con("", val)}}}
		check(s.Step(q, ctx) == nil, "step")
	}
	step("0")
	a, err := s.Values([]query.QVar{"x"}, ctx)
	check(err == nil && a[0].Val[0] == query.ZERO, "%v %v", a, err)
	step("1")
	b, err := s.Values([]query.QVar{"x"}, ctx)
	check(err == nil && b[0].Val[0] == query.ONE, "%v %v", b, err)
	check(a[0].Val[0] == query.ZERO, "the first result is now %v", a)
}''',[Q,LO,SU,CO])

S("P23-buffer","P23",[("compute/solver.go","	output     []byte\n","	output     []byte\n	buf        bytes.Buffer\n"),
 ("compute/solver.go","code, output, err := runSolver(cmd)","code, output, err := s.runSolver(cmd)"),
 ("compute/solver.go","func runSolver(cmd","func (s *binSolver) runSolver(cmd"),
 ("compute/solver.go","	var stderr, stdout bytes.Buffer\n","	var stderr bytes.Buffer\n	stdout := &s.buf\n	stdout.Reset()\n"),
 ("compute/solver.go","	cmd.Stdout = &stdout\n","	cmd.Stdout = stdout\n")],
 "an unsatisfiable step between a satisfiable one and the retrieval of its values",
 "the recorded valuation is overwritten by a later, unsatisfiable step",
 '''func main() {
	ctx := query.BasicQContext(plain(1))
	s, err := compute.BinSolver(solver("exit 10 c\\nv 1 -2 -3 0"))
	check(err == nil, "%v", err)
	x := logop.WithVar{I: "x", Q: full.Var{I: "x"}}
	check(s.Step(x, ctx) == nil, "step")
	a, err := s.Values([]query.QVar{"x"}, ctx)
	check(err == nil, "%v", err)
	solver("exit 20 c no no no no no no no no no")
	check(s.Step(x, ctx) == compute.UnsatError, "step")
	b, err := s.Values([]query.QVar{"x"}, ctx)
	check(err == nil && len(b) == 1 && b[0].Val[0] == a[0].Val[0], "%v after %v: %v", b, a, err)
}''',[Q,LO,FU,CO])

S("P23-silent","P23",[("compute/solver.go","if exitCode != 10 && exitCode != 20 {","if exitCode != 10 && exitCode != 20 && stderr.Len() > 0 {")],
 "a solver that fails without a message",
 "a failed run counts as satisfiable",
 '''func main() {
	s, err := compute.BinSolver(solver("exit 1"))
	check(err == nil, "%v", err)
	err = s.Step(logop.WithVar{I: "x", Q: full.Var{I: "x"}}, query.BasicQContext(plain(1)))
	check(err != nil && err != compute.UnsatError, "a solver that exits with code 1 gives %v", err)
}''',[Q,LO,FU,CO])

S("P27-fixed","P27",[("compute/solver.go",'os.CreateTemp("", "tmp.cnf")','os.OpenFile(os.TempDir()+"/tmp.cnf", os.O_CREATE|os.O_RDWR, 0o600)')],
 "a file of that name in the directory for temporary files, another process's for one",
 "a file that is not the solver's own is overwritten and removed",
 '''func main() {
	t := os.Args[1]
	os.Setenv("TMPDIR", t)
	p := t + "/tmp.cnf"
	check(os.WriteFile(p, []byte("mine"), 0o600) == nil, "write")
	s, err := compute.BinSolver(solver("solve"))
	check(err == nil, "%v", err)
	check(s.Step(logop.WithVar{I: "x", Q: full.Var{I: "x"}}, query.BasicQContext(plain(1))) == nil, "step")
	b, err := os.ReadFile(p)
	check(err == nil && string(b) == "mine", "the file holds %q, %v", b, err)
}''',["os",Q,LO,FU,CO])

S("P12-partial","P12",[("query/logop/forallguarded.go","		ncnf = ncnf.Conj","		if icnf.TriviallyFalse() {\n			ncnf = icnf\n			break\n		}\n		ncnf = ncnf.Conj")],
 "a body that is false for one of the later nodes and brings consistency clauses for earlier ones",
 "consistency clauses of earlier iterations are lost, variables of theirs are left open",
 '''type body struct {
	c query.QConst
	n *int
}

func (q body) Encoding(ctx query.QContext) (cnf.CNF, error) {
	*q.n++
	if *q.n == 3 {
		return cnf.FalseCNF, nil
	}
	return cnf.CNF{}.AppendConsistency(cnf.Clause{ctx.CNFVar("own", *q.n, 0)}), nil
}

func main() {
	n := 0
	t := tree{1, []query.Node{split(0, 1, 2), leaf(true), leaf(false)}}
	c, err := logop.ForAllGuarded{I: con("c", ""), Q: body{con("c", ""), &n}}.Encoding(query.BasicQContext(t))
	check(err == nil, "%v", err)
	_, k := c.Clauses()
	check(!sat(all(c)), "false for a node but satisfiable")
	check(len(k) == 2, "%d of 2 consistency clauses left: %v", len(k), k)
}''',[Q,LO,C])

S("P15-ends","P15",[("cnf/cnf.go","	ncnf := CNF{sClauses: clauses}\n	ncnf.tv = maxVar(clauses)\n","	ncnf := CNF{sClauses: clauses}\n	for _, c := range clauses {\n		if len(c) > 0 {\n			ncnf.tv = max(ncnf.tv, absInt(c[0]), absInt(c[len(c)-1]))\n		}\n	}\n")],
 "a clause whose largest variable is neither its first nor its last",
 "the reported top variable is lower than a variable in use",
 '''func main() {
	c := cnf.FromClauses([]cnf.Clause{{1, -9, 2}})
	check(c.TopV() >= 9, "top variable %d with variable 9 in use", c.TopV())
}''',[C])

S("P26-large","P26",[("compute/solver.go","strconv.Atoi(string(vb))","strconv.ParseInt(string(vb), 10, 16)"),("compute/solver.go","absVal := iAbs(val)","absVal := iAbs(int(val))")],
 "a formula with more than 32767 variables",
 "values of a large formula cannot be read",
 '''func main() {
	ctx := query.BasicQContext(plain(1))
	s, err := compute.BinSolver(solver("exit 10 v 1 -2 -3 40000 0"))
	check(err == nil, "%v", err)
	check(s.Step(logop.WithVar{I: "x", Q: full.Var{I: "x"}}, ctx) == nil, "step")
	v, err := s.Values([]query.QVar{"x"}, ctx)
	check(err == nil && len(v) == 1, "%v, %v", v, err)
}''',[Q,LO,FU,CO])

S("P09-wide","P09",[("query/extensions/leh/utils.go","hd := 0","hd := int8(0)"),("query/extensions/leh/utils.go","return hd, nil","return int(hd), nil")],
 "constants that differ in more than 127 features",
 "large distances between constants wrap around",
 '''func main() {
	zeros, ones := strings.Repeat("0", 130), strings.Repeat("1", 130)
	c, err := leh.ConstConstConst{I1: con("a", zeros), I2: con("b", "1"+zeros[1:]), I3: con("c", ones)}.Encoding(query.BasicQContext(plain(130)))
	check(err == nil && sat(all(c)), "a vector at distance 1 should be closer than one at 130: %v", err)
	c, err = leh.ConstConstConst{I1: con("a", zeros), I2: con("b", ones), I3: con("c", "1"+zeros[1:])}.Encoding(query.BasicQContext(plain(130)))
	check(err == nil && !sat(all(c)), "a vector at distance 130 is closer than one at 1: %v", err)
}''',["strings",Q,LEH])

S("P24-same","P24",[("compute/boolcomb.go","	for _, elem := range ac {\n		sat, err := elem.Sat(ctx, solver)\n","	for i, elem := range ac {\n		if i > 0 && elem == ac[i-1] {\n			continue\n		}\n		sat, err := elem.Sat(ctx, solver)\n")],
 "neighbouring elements that are combinations themselves",
 "evaluating a conjunction panics on values that cannot be compared",
 '''type no struct{}

func (no) Step(q compute.Encodable, ctx query.QContext) error { return nil }
func (no) Values(vars []query.QVar, ctx query.QContext) ([]query.QConst, error) {
	return nil, nil
}

func main() {
	defer func() {
		x := recover()
		check(x == nil, "panic: %v", x)
	}()
	a := compute.OrCombinator{compute.QDTFAtom{Query: logop.WithVar{I: "x", Q: full.Var{I: "x"}}}}
	ok, err := compute.AndCombinator{a, a}.Sat(query.BasicQContext(plain(1)), no{})
	check(ok && err == nil, "%v, %v", ok, err)
}''',[Q,LO,FU,CO])

S("P26-twice","P26",[("compute/solver.go","		c, err := varValueFromBytes","		if i > 0 && v == vars[i-1] {\n			continue\n		}\n		c, err := varValueFromBytes")],
 "a variable asked for twice in a row",
 "the second constant of a repeated variable is empty",
 '''func main() {
	ctx := query.BasicQContext(plain(1))
	s, err := compute.BinSolver(solver("solve"))
	check(err == nil, "%v", err)
	check(s.Step(logop.WithVar{I: "x", Q: full.Var{I: "x"}}, ctx) == nil, "step")
	v, err := s.Values([]query.QVar{"x", "x"}, ctx)
	check(err == nil && len(v) == 2 && len(v[1].Val) == 1, "%v, %v", v, err)
}''',[Q,LO,FU,CO])

S("P23-novalues","P23",[("compute/solver.go","	s.output = output\n","	if bytes.Contains(output, []byte(\"\\nv \")) {\n		s.output = output\n	}\n")],
 "a satisfiable step whose output carries no values, after one whose output does",
 "values of an earlier step are reported as the last one's",
 '''func main() {
	ctx := query.BasicQContext(plain(1))
	s, err := compute.BinSolver(solver("exit 10 s\\nv 1 -2 -3 0"))
	check(err == nil, "%v", err)
	q := logop.WithVar{I: "x", Q: full.Var{I: "x"}}
	check(s.Step(q, ctx) == nil, "step")
	solver("exit 10 s")
	check(s.Step(q, ctx) == nil, "step")
	v, err := s.Values([]query.QVar{"x"}, ctx)
	check(err != nil, "the last output has no values, yet %v is reported", v)
}''',[Q,LO,FU,CO])

