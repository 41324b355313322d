#!/usr/bin/env python3
import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed
only=set(sys.argv[1:])
def S(id,*a,**k):
    if not only or id in only: seed(id,*a,**k)
LO="@/query/logop"; Q="@/query"; C="@/cnf"

S("P01-scope","P01",[("query/predicates/subsumption/const_var.go","range sc.Val","range s.I1.Val")],
 "the constant operand must be bound by an enclosing guarded quantifier",
 "ConstVar reads the operand itself instead of its scoped value, so under a quantifier the formula is true for every variable",
 '''func main() {
	t := tree{1, []query.Node{split(0, 1, 2), leaf(true), leaf(false)}}
	q := logop.ForAllGuarded{I: query.QConst{ID: "c"}, Q: subsumption.ConstVar{I1: query.QConst{ID: "c"}, I2: "x"}}
	check(!holds(t, q, map[string]string{"x": "0"}), "0 is subsumed by no instance of node 2")
}''',[Q,LO,"@/query/predicates/subsumption"])

S("P03-branch","P03",[("query/predicates/isnode/var.go",'''			cnf.Clause{
				-ctx.CNFVar(svReach, 1, node.OChild),
				ctx.CNFVar(sv, node.Feat, int(query.ONE)),
			},
''','')] ,
 "a feature decided only in the branch that the instance does not take",
 "a node may count as reached through the branch not taken",
 '''func main() {
	// The second feature is only decided when the first one is one.
	t := tree{2, []query.Node{split(0, 1, 2), leaf(true), split(1, 3, 4), leaf(false), leaf(true)}}
	q := isnode.Var{I: "x", ReachNodeVarGen: gen1("r#")}
	for a, want := range map[string]bool{"__": true, "0_": true, "1_": true, "10": true, "11": true, "00": false, "01": false, "_0": false} {
		check(holds(t, q, map[string]string{"x": a}) == want, "Node(%s)", a)
	}
}''',[Q,"@/query/predicates/isnode"])

S("P06-negated","P06",[("query/extensions/allcomp/var.go",'''			cnf.Clause{
				-ctx.CNFVar(svReach, 0, node.ZChild),
				ctx.CNFVar(sv, node.Feat, int(query.ZERO)),
				ctx.CNFVar(sv, node.Feat, int(query.BOT)),
			},
''','')],
 "the formula used under negation, with the wrong class behind a zero branch the instance does not take",
 "nodes behind a zero branch may be marked as reached when the feature is one",
 '''func main() {
	t := tree{1, []query.Node{split(0, 1, 2), leaf(false), leaf(true)}}
	q := allcomp.Var{I: "x", LeafValue: true, ReachNodeVarGen: gen1("r#")}
	for a, want := range map[string]bool{"_": false, "0": false, "1": true} {
		v := map[string]string{"x": a}
		check(holds(t, q, v) == want, "AllPos(%s)", a)
		check(holds(t, logop.Not{Q: q}, v) == !want, "not AllPos(%s)", a)
	}
}''',[Q,LO,"@/query/extensions/allcomp"])

S("P07-backup","P07",[("query/extensions/dfs/utils.go",'''			cp = walk[cp].prev
			cv[nodes[cp].Feat] = query.BOT
''','''			cv[nodes[cp].Feat] = query.BOT
			cp = walk[cp].prev
''')],
 "a tree of depth two or more whose subtrees decide different features",
 "leaves found after backing up carry values of features their path does not decide",
 '''func main() {
	t := tree{3, []query.Node{split(0, 1, 2), split(1, 3, 4), split(2, 5, 6), leaf(true), leaf(true), leaf(false), leaf(false)}}
	q := dfs.Var{I: "x"}
	for a, want := range map[string]bool{"0__": true, "1__": true, "___": false, "_11": false, "_00": false} {
		check(holds(t, q, map[string]string{"x": a}) == want, "DFS(%s)", a)
	}
}''',[Q,"@/query/extensions/dfs"])

S("P08-perm","P08",[("query/extensions/hepr/var_const.go","	idx := d.Preference[plen-1]\n","	idx := plen - 1\n")],
 "a preference whose last position holds a feature other than its own index",
 "the last preference is compared on the feature numbered by its position",
 '''func main() {
	q := hepr.VarConst{I1: "x", I2: con("c", "0_"), Preference: []int{1, 0}, FeaturePreferenceRankVarGen: gen3}
	for a, want := range map[string]bool{"__": false, "0_": true, "_0": true, "00": true, "1_": true} {
		check(holds(plain(2), q, map[string]string{"x": a}) == want, "HEPR(%s, 0_)", a)
	}
}''',["@/query/extensions/hepr"])

S("P09-far","P09",[("query/extensions/leh/utils.go","""				-ctx.CNFVar(vfeq, i, 0),
				ctx.CNFVar(vd, i, 0),
			},
		)
		for j := 1; j <= i+1; j++ {""","""				-ctx.CNFVar(vfeq, i, 0),
				ctx.CNFVar(vd, i, 0),
			},
		)
		for j := 1; j <= i; j++ {""")],
 "two variables that differ on every feature",
 "the largest distance is not defined by the clauses, so opposite instances may take any distance",
 '''func main() {
	q := leh.VarVarVar{I1: "x", I2: "y", I3: "z", HammingDistanceVarGen: gen2("h#"), EqualFeatureVarGen: gen2("e#")}
	v := map[string]string{"x": "00", "y": "11", "z": "01"}
	check(!holds(plain(2), q, v), "LEH(00, 11, 01)")
	v = map[string]string{"x": "00", "y": "01", "z": "11"}
	check(!holds(plain(2), logop.Not{Q: q}, v), "not LEH(00, 01, 11)")
}''',[LO,"@/query/extensions/leh"])

S("P10-short","P10",[("query/logop/or.go","	// Negate both children\n","""	// A disjunction with a true element is true
	if cnf1.TriviallyTrue() || cnf2.TriviallyTrue() {
		return cnf.TrueCNF, nil
	}

	// Negate both children
""")],
 "a disjunction of a trivially true element and one that declares a variable used elsewhere",
 "the consistency clauses of the other element are dropped",
 '''func main() {
	// The only declaration of x sits in the disjunction.
	q := logop.And{
		Q1: logop.Or{
			Q1: full.Const{I: con("c", "1")},
			Q2: logop.WithVar{I: "x", Q: full.Var{I: "x"}},
		},
		Q2: full.Var{I: "x"},
	}
	ctx := query.BasicQContext(plain(1))
	c, err := q.Encoding(ctx)
	check(err == nil, "%v", err)
	both := [][]int{{ctx.CNFVar("x", 0, 1)}, {ctx.CNFVar("x", 0, 2)}}
	check(!sat(append(all(c), both...)), "x takes two values on one feature")
}''',[Q,LO,"@/query/extensions/full"])

S("P15-negative","P15",[("cnf/cnf.go","			absV := absInt(v)\n			if absV > topv {","			absV := absInt(v)\n			if v > topv {")],
 "a formula whose largest variable occurs only in negative literals",
 "TopV is smaller than a variable of the formula",
 '''func main() {
	c := cnf.FromClauses([]cnf.Clause{{1, -7}, {2}})
	check(c.TopV() >= 7, "TopV is %d", c.TopV())
}''',[C])

S("P16-extend","P16",[("cnf/cnf.go","""	rcnf := c.AppendSemantics(oc.sClauses...)
	rcnf.cClauses = c.cClauses
	rcnf = rcnf.AppendConsistency(oc.cClauses...)
""","""	rcnf := c.AppendSemantics(oc.sClauses...)
	rcnf.cClauses = append(c.cClauses, oc.cClauses...)
	rcnf.tv = maxInt(rcnf.tv, maxVar(oc.cClauses))
""")],
 "two conjunctions that extend one formula whose consistency clauses have spare capacity",
 "the second conjunction overwrites the clauses of the first",
 '''func main() {
	a := cnf.CNF{}
	for i := 1; i <= 3; i++ {
		a = a.Conjunction(cnf.CNF{}.AppendConsistency(cnf.Clause{i}))
	}
	b := a.Conjunction(cnf.CNF{}.AppendConsistency(cnf.Clause{4}))
	a.Conjunction(cnf.CNF{}.AppendConsistency(cnf.Clause{5}))
	_, cc := b.Clauses()
	check(cc[3][0] == 4, "clause 4 became %v", cc[3])
}''',[C])

S("P17-empty","P17",[("cnf/cnf.go","""	for _, clause := range c.sClauses {
		if _, err = f.WriteString(""","""	for _, clause := range c.sClauses {
		if len(clause) == 0 {
			continue
		}
		if _, err = f.WriteString(""")],
 "a formula with an empty semantic clause",
 "the file lacks the empty clause, so a false formula is written as a true one",
 '''func main() {
	p := os.Args[1] + "/f.cnf"
	check(cnf.FalseCNF.ToFile(p) == nil, "ToFile fails")
	b, err := os.ReadFile(p)
	check(err == nil && string(b) == string(cnf.FalseCNF.ToBytes()), "the file holds %q", b)
}''',["os",C])

S("P19-collide","P19",[("query/logop/or.go","""	cnf1 = cnf1.Negate(ctx.TopV())
	tv := cnf1.TopV()
	ctx.UpdateTopV(tv) // TopV could have increases while negating

	cnf2 = cnf2.Negate(ctx.TopV())
	tv = cnf2.TopV()
	ctx.UpdateTopV(tv) // TopV could have increases while negating
""","""	cnf1 = cnf1.Negate(ctx.TopV())
	cnf2 = cnf2.Negate(ctx.TopV())
	ctx.UpdateTopV(maxInt(cnf1.TopV(), cnf2.TopV()))
"""),("query/logop/or.go","func (o Or) buildEncoding","""func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (o Or) buildEncoding""")],
 "a disjunction both of whose elements need auxiliary variables to be negated",
 "both negations use the same auxiliary variables",
 '''func main() {
	q := logop.Or{Q1: full.Var{I: "x"}, Q2: full.Var{I: "y"}}
	check(holds(plain(2), q, map[string]string{"x": "11", "y": "__"}), "Full(11) or Full(__)")
	check(!holds(plain(2), q, map[string]string{"x": "__", "y": "_1"}), "Full(__) or Full(_1)")
}''',[LO,"@/query/extensions/full"])

S("P30-sort","P30",[("query/extensions/hepr/util.go","""	for _, i := range pref {
		if i < 0""","""	sort.Ints(pref)
	for _, i := range pref {
		if i < 0"""),("query/extensions/hepr/util.go",'	"strconv"','	"sort"\n	"strconv"')],
 "a preference that is not sorted",
 "building the formula reorders the caller's preference",
 '''func main() {
	p := []int{1, 0}
	_, err := hepr.ConstConst{I1: con("a", "0_"), I2: con("b", "_0"), Preference: p}.Encoding(query.BasicQContext(plain(2)))
	check(err == nil && p[0] == 1, "the preference is now %v", p)
}''',[Q,"@/query/extensions/hepr"])

S("P02-allbot","P02",[("query/predicates/lel/const_var.go","i < ctx.Dim()+1","i < ctx.Dim()")],
 "a variable with every feature undefined against a constant with at least one defined feature",
 "the formula accepts the all-bottom instance for every constant",
 '''func main() {
	q := lel.ConstVar{I1: con("c", "01"), I2: "y", CountVarGen: gen1("n#")}
	for _, b := range instances(2) {
		want := con("", b).BotCount() == 0
		check(holds(plain(2), q, map[string]string{"y": b}) == want, "LEL(01, %s)", b)
	}
}''',["@/query/predicates/lel"])

S("P11-order","P11",[("query/logop/with_var.go","""	icnf := w.encodeI(ctx)

	ccnf, err := w.Q.Encoding(ctx)
	if err != nil {
		return cnf.CNF{}, err
	}

	return icnf.Conjunction(ccnf), nil
""","""	ccnf, err := w.Q.Encoding(ctx)
	if err != nil {
		return cnf.CNF{}, err
	}

	return w.encodeI(ctx).Conjunction(ccnf), nil
""")],
 "a sub-query that mentions the bottom value of the variable's first feature",
 "the variable seems to be declared already once its sub-query is encoded, so it is left unconstrained",
 '''func main() {
	ctx := query.BasicQContext(plain(2))
	c, err := logop.WithVar{I: "x", Q: full.Var{I: "x"}}.Encoding(ctx)
	check(err == nil, "%v", err)
	for i := 0; i < 2; i++ {
		both := [][]int{{ctx.CNFVar("x", i, 1)}, {ctx.CNFVar("x", i, 2)}}
		check(!sat(append(all(c), both...)), "x takes two values on feature %d", i)
	}
}''',[Q,LO,"@/query/extensions/full"])

S("P12-backup","P12",[("query/logop/forallguarded.go","""			i.cp = i.walk[i.cp].prev
			(*i.t)[i.nodes[i.cp].Feat] = query.BOT
""","""			(*i.t)[i.nodes[i.cp].Feat] = query.BOT
			i.cp = i.walk[i.cp].prev
""")],
 "a tree of depth two or more whose subtrees decide different features",
 "the quantifier ranges over instances that are no node of the tree and misses real ones",
 '''func main() {
	t := tree{2, []query.Node{split(0, 1, 2), split(1, 3, 4), leaf(true), leaf(true), leaf(false)}}
	q := logop.ForAllGuarded{I: query.QConst{ID: "c"}, Q: logop.Not{Q: subsumption.VarConst{I1: "x", I2: query.QConst{ID: "c"}}}}
	for x, want := range map[string]bool{"1_": false, "11": true, "00": false, "01": false, "_1": false} {
		check(holds(t, q, map[string]string{"x": x}) == want, "no node above %s", x)
	}
}''',[Q,LO,"@/query/predicates/subsumption"])

S("P13-top","P13",[("cnf/cnf.go","		topv = maxInt(topv, opt_topv[0])\n","		topv = opt_topv[0]\n")],
 "a formula whose top variable exceeds the one passed to Negate",
 "the negation reuses variables of the formula as auxiliaries",
 '''func main() {
	c := cnf.FromClauses([]cnf.Clause{{1, 2}, {3, 4}}).Negate(2)
	check(!sat(append(all(c), []int{1}, []int{3})), "the negation holds although the formula does")
	check(sat(append(all(c), []int{-1}, []int{-2}, []int{3}, []int{4})), "the negation fails although the formula does")
}''',[C])

S("P14-cons","P14",[("cnf/cnf.go","	return len(c.sClauses) == 0 && len(c.cClauses) == 0\n","	return len(c.sClauses) == 0\n")],
 "a formula with consistency clauses only",
 "a formula that constrains its variables is reported as trivially true",
 '''func main() {
	check(!cnf.CNF{}.AppendConsistency(cnf.Clause{1}).TriviallyTrue(), "{{1}} is not trivially true")
}''',[C])
