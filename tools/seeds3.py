#!/usr/bin/env python3
import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed
only=set(sys.argv[1:])
def S(id,*a,**k):
    if not only or id in only:
        try: seed(id,*a,**k)
        except AssertionError as e: print('NOT APPLIED',e)
LO="@/query/logop"; Q="@/query"; C="@/cnf"; CO="@/compute"
FU="@/query/extensions/full"; SU="@/query/predicates/subsumption"; LEL="@/query/predicates/lel"; LEH="@/query/extensions/leh"; CONS="@/query/extensions/cons"
HEPR="@/query/extensions/hepr"; DFS="@/query/extensions/dfs"; AC="@/query/extensions/allcomp"; ISN="@/query/predicates/isnode"

S("P17-trunc","P17",[("cnf/cnf.go","	f, err := os.Create(path)\n","	f, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE, 0o666)\n")],
 "writing to a file that already holds a longer formula",
 "the end of the file's old content stays behind the formula",
 '''func main() {
	p := os.Args[1] + "/f.cnf"
	check(cnf.FromClauses([]cnf.Clause{{1, 2, 3}, {4, 5, 6}}).ToFile(p) == nil, "write")
	c := cnf.FromClauses([]cnf.Clause{{1}})
	check(c.ToFile(p) == nil, "write")
	b, err := os.ReadFile(p)
	check(err == nil && string(b) == string(c.ToBytes()), "the file holds %q", b)
}''',["os",C])

S("P18-key","P18",[("query/varmanager.go","	vr := varRep{v, idx, value}\n","	vr := varRep{v: v, val: idx<<4 | value}\n"),
 ("query/varmanager.go","	_, ok := vm.vars[varRep{v, idx, value}]\n","	_, ok := vm.vars[varRep{v: v, val: idx<<4 | value}]\n")],
 "values of sixteen or more, as in counts and distances over many features or node numbers",
 "different variables share a number",
 '''func main() {
	ctx := query.BasicQContext(plain(1))
	a := ctx.CNFVar("x", 1, 0)
	check(ctx.CNFVar("x", 0, 16) != a, "(x,0,16) and (x,1,0) are the same variable")
}''',[Q])

S("P30-map","P30",[("query/logop/with_var.go","""	for i := 0; i < ctx.Dim(); i++ {
		reqOnePerFeat := []cnf.Clause{
""","""	feats := map[int]bool{}
	for i := 0; i < ctx.Dim(); i++ {
		feats[i] = true
	}
	for i := range feats {
		reqOnePerFeat := []cnf.Clause{
""")],
 "a model with several features",
 "the order of the clauses differs between encodings of one query",
 '''func main() {
	first := ""
	for i := 0; i < 100; i++ {
		c, err := logop.WithVar{I: "x", Q: full.Var{I: "x"}}.Encoding(query.BasicQContext(plain(6)))
		check(err == nil, "%v", err)
		if first == "" {
			first = string(c.ToBytes())
		}
		check(string(c.ToBytes()) == first, "encoding %d differs", i)
	}
}''',[Q,LO,FU])

S("P30-cache","P30",[("query/extensions/dfs/var.go","""func (d Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
""","""var leaves = map[query.QVar][2][]query.QConst{}

func (d Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
"""),("query/extensions/dfs/var.go","""	pleaf, nleaf, err := leafsAsConsts(ctx.Dim(), ctx.Nodes())
	if err != nil {
		return cnf.CNF{}, err
	}
""","""	var err error
	pleaf, nleaf := leaves[sv][0], leaves[sv][1]
	if len(pleaf)+len(nleaf) == 0 || len(append(pleaf, nleaf...)[0].Val) != ctx.Dim() {
		pleaf, nleaf, err = leafsAsConsts(ctx.Dim(), ctx.Nodes())
		if err != nil {
			return cnf.CNF{}, err
		}
		leaves[sv] = [2][]query.QConst{pleaf, nleaf}
	}
""")],
 "the same variable name used with two models of the same dimension in one process",
 "leaves of an earlier model are used for a later one",
 '''func main() {
	a := tree{2, []query.Node{split(0, 1, 2), leaf(true), leaf(false)}}
	b := tree{2, []query.Node{split(1, 1, 2), leaf(true), leaf(false)}}
	v := map[string]string{"x": "0_"}
	check(holds(a, dfs.Var{I: "x"}, v), "feature 0 decides a")
	check(!holds(b, dfs.Var{I: "x"}, v), "feature 0 does not decide b")
}''',[Q,DFS])

S("P12-index","P12",[("query/logop/forallguarded.go","		if err = ctx.SetScope(i, *cv); err != nil {","		if err = ctx.SetScope(iter.cp-iter.walk[iter.cp].prev, *cv); err != nil {")],
 "a variable declared inside the quantifier and a tree with several nodes at the same distance from their parents",
 "iterations share the index that keeps their variables apart",
 '''func main() {
	t := tree{2, []query.Node{split(0, 1, 2), leaf(true), split(1, 3, 4), leaf(false), leaf(true)}}
	c := query.QConst{ID: "c"}
	q := logop.ForAllGuarded{I: c, Q: logop.WithVar{I: "x", Q: logop.And{
		Q1: subsumption.VarConst{I1: "x", I2: c},
		Q2: subsumption.ConstVar{I1: c, I2: "x"},
	}}}
	check(holds(t, q, nil), "every node equals some instance")
}''',[Q,LO,SU])

S("P25-calls","P25",[("compute/optimum.go","	steps := 1\n","	steps := 0\n")],
 "any property that holds of some value",
 "the number of solver calls is one too small",
 '''func main() {
	s, err := compute.BinSolver(solver("solve"))
	check(err == nil, "%v", err)
	og := func(v query.QVar, c query.QConst) compute.Encodable {
		return logop.And{Q1: subsumption.VarConst{I1: v, I2: c}, Q2: logop.Not{Q: subsumption.ConstVar{I1: c, I2: v}}}
	}
	fg := func(v query.QVar) compute.Encodable { return full.Var{I: v} }
	out, err := compute.ComputeOptim(fg, og, "x", query.BasicQContext(plain(1)), s)
	check(err == nil && out.Found && out.Calls == 2, "%v, %v", out, err)
}''',[Q,LO,SU,FU,CO])


S("P15-append","P15",[("cnf/cnf.go","""	rcnf := c.AppendSemantics(oc.sClauses...)
	rcnf.cClauses = c.cClauses
	rcnf = rcnf.AppendConsistency(oc.cClauses...)
	return rcnf
""","""	rcnf := c.AppendSemantics(oc.sClauses...)
	rcnf.cClauses = append(c.cClauses[:len(c.cClauses):len(c.cClauses)], oc.cClauses...)
	return rcnf
""")],
 "the right operand's largest variable occurs in its consistency clauses only",
 "the reported top variable misses those of consistency clauses",
 '''func main() {
	c := cnf.FromClauses([]cnf.Clause{{1}}).Conjunction(cnf.CNF{}.AppendConsistency(cnf.Clause{7}))
	check(c.TopV() >= 7, "top variable %d with variable 7 in use", c.TopV())
}''',[C])

S("P24-and","P24",[("compute/boolcomb.go","""		if errors.Is(err, UnsatError) {
			return a.Negated, nil
		}

		return false, err
""","""		if errors.Is(err, UnsatError) {
			return a.Negated, nil
		}
		if a.Negated {
			return false, nil
		}

		return false, err
""")],
 "a negated atom whose solver step fails",
 "a failed step of a negated atom counts as false",
 '''func main() {
	s, err := compute.BinSolver(solver("exit 1"))
	check(err == nil, "%v", err)
	_, err = compute.QDTFAtom{Query: logop.WithVar{I: "x", Q: full.Var{I: "x"}}, Negated: true}.Sat(query.BasicQContext(plain(1)), s)
	check(err != nil, "a failing solver gives a truth value")
}''',[Q,LO,FU,CO])

S("P05-free","P05",[("query/extensions/cons/const_var.go","	sv := ctx.ScopeVar(c.I2)\n","	sv := c.I2\n")],
 "a variable declared inside a guarded quantifier",
 "agreement is required of a variable outside the quantifier",
 '''func main() {
	t := tree{1, []query.Node{leaf(true)}}
	q := logop.ForAllGuarded{I: query.QConst{ID: "c"}, Q: logop.WithVar{I: "x", Q: logop.And{
		Q1: subsumption.ConstVar{I1: con("", "1"), I2: "x"},
		Q2: cons.ConstVar{I1: con("", "0"), I2: "x"},
	}}}
	check(!holds(t, q, nil), "x agrees with 0 and is 1")
}''',[Q,LO,SU,CONS])

S("P07-pairs","P07",[("query/extensions/dfs/const.go","""			if !cons {
				return cnf.FalseCNF, nil
			}
		}
	}
""","""			if !cons {
				return cnf.FalseCNF, nil
			}
			if p.IsFull() && n.IsFull() {
				break
			}
		}
	}
""")],
 "two full leaves of different class that differ in a defined feature, in front of a leaf that the constant does not tell apart",
 "pairs of leaves go unchecked",
 '''func main() {
	t := tree{2, []query.Node{split(0, 1, 2), split(1, 3, 4), split(1, 5, 6), leaf(true), leaf(false), leaf(false), leaf(false)}}
	for _, x := range instances(2) {
		want := x[0] != '_' && x[1] != '_'
		check(holds(t, dfs.Const{I: con("", x)}, nil) == want, "DFS(%s)", x)
	}
}''',[Q,DFS])

S("P08-const","P08",[("query/extensions/hepr/const_var.go","	for i := plen - 2; i >= 0; i-- {\n","	for i := plen - 2; i >= 0 && (i < plen-2 || plen > 1); i-- {\n"),
 ("query/extensions/hepr/const_var.go","""			cnf.Clause{
				-ctx.CNFVar(cvp, 0, i),
				ctx.CNFVar(cvp, 0, i+1),
			},
""","""			cnf.Clause{
				-ctx.CNFVar(cvp, 0, i),
				ctx.CNFVar(cvp, 0, plen-1),
			},
""")],
 "three or more preferences with an undefined feature of the constant in front",
 "ranks are chained to the last one instead of the next",
 '''func main() {
	q := hepr.ConstVar{I1: con("", "__0"), I2: "x", Preference: []int{0, 1, 2}, FeaturePreferenceRankVarGen: func(p, a, b query.QVar) query.QVar { return gen3(p, a, b) }}
	for x, want := range map[string]bool{"_0_": false, "_00": false, "__0": true, "___": true, "0__": false} {
		check(holds(plain(3), q, map[string]string{"x": x}) == want, "x=%s", x)
	}
}''',[Q,HEPR])


S("P09-swap","P09",[("query/extensions/leh/var_const_var.go","	vvef := l.EqualFeatureVarGen(sv1, sv2)\n","	vvef := l.EqualFeatureVarGen(l.I1, l.I3)\n")],
 "the predicate on variables declared inside a guarded quantifier with several iterations",
 "iterations share the variables that tell which features are equal",
 '''func main() {
	t := tree{1, []query.Node{split(0, 1, 2), leaf(true), leaf(false)}}
	c := query.QConst{ID: "c"}
	q := logop.ForAllGuarded{I: c, Q: logop.WithVar{I: "x", Q: logop.Or{
		Q1: logop.Not{Q: full.Const{I: c}},
		Q2: logop.And{
			Q1: subsumption.VarConst{I1: "x", I2: c},
			Q2: logop.And{
				Q1: full.Var{I: "x"},
				Q2: leh.VarConstVar{I1: "x", I2: c, I3: "y", HammingDistanceVarGen: gen2("d#"), EqualFeatureVarGen: gen2("e#")},
			},
		},
	}}}
	check(holds(t, q, map[string]string{"y": "0"}), "x=c is at distance 0 from c")
}''',[Q,LO,FU,SU,LEH])
