# Rewrites of the predicates and extensions.
IC, IV = "query/predicates/isnode/const.go", "query/predicates/isnode/var.go"
LU, LVV, LCV = "query/predicates/lel/utils.go", "query/predicates/lel/var_var.go", "query/predicates/lel/const_var.go"
SVV, SVC = "query/predicates/subsumption/var_var.go", "query/predicates/subsumption/var_const.go"
DU, DC, DV = "query/extensions/dfs/utils.go", "query/extensions/dfs/const.go", "query/extensions/dfs/var.go"
AC, AV = "query/extensions/allcomp/const.go", "query/extensions/allcomp/var.go"
HU, HVV, HCV, HCC = ["query/extensions/hepr/%s.go" % f for f in ("util", "var_var", "const_var", "const_const")]
EU, EVVV, ECVC = ["query/extensions/leh/%s.go" % f for f in ("utils", "var_var_var", "const_var_const")]
FV = "query/extensions/full/var.go"

R("dfs-recursive", F(DU, "leafsAsConsts", '''
func leafsAsConsts(
	dim int,
	nodes []query.Node,
) (pleaf, nleaf []query.QConst, err error) {
	if len(nodes) == 0 {
		return nil, nil, nil
	}
	for _, n := range nodes {
		if err := validateNode(n, dim, len(nodes)); err != nil {
			return nil, nil, err
		}
	}
	seen := make([]bool, len(nodes))
	path := make([]query.FeatV, dim)
	var walk func(int)
	walk = func(i int) {
		if seen[i] {
			return
		}
		seen[i] = true
		n := nodes[i]
		if n.IsLeaf() {
			c := query.QConst{Val: append([]query.FeatV(nil), path...)}
			if n.Value {
				pleaf = append(pleaf, c)
			} else {
				nleaf = append(nleaf, c)
			}
			return
		}
		path[n.Feat] = query.ZERO
		walk(n.ZChild)
		path[n.Feat] = query.ONE
		walk(n.OChild)
		path[n.Feat] = query.BOT
	}
	walk(0)
	return pleaf, nleaf, nil
}
'''))
R("dfs-recursive-value", F(DU, "leafsAsConsts", '''
func leafsAsConsts(
	dim int,
	nodes []query.Node,
) (pleaf, nleaf []query.QConst, err error) {
	if len(nodes) == 0 {
		return nil, nil, nil
	}
	for _, n := range nodes {
		if err := validateNode(n, dim, len(nodes)); err != nil {
			return nil, nil, err
		}
	}
	pleaf, nleaf = collect(nodes, 0, make([]query.FeatV, dim), map[int]bool{})
	return pleaf, nleaf, nil
}

func collect(nodes []query.Node, i int, path []query.FeatV, seen map[int]bool) (pos, neg []query.QConst) {
	if seen[i] {
		return nil, nil
	}
	seen[i] = true
	n := nodes[i]
	if n.IsLeaf() {
		if n.Value {
			return []query.QConst{{Val: path}}, nil
		}
		return nil, []query.QConst{{Val: path}}
	}
	zpos, zneg := collect(nodes, n.ZChild, with(path, n.Feat, query.ZERO), seen)
	opos, oneg := collect(nodes, n.OChild, with(path, n.Feat, query.ONE), seen)
	return append(zpos, opos...), append(zneg, oneg...)
}

func with(path []query.FeatV, i int, v query.FeatV) []query.FeatV {
	out := make([]query.FeatV, len(path))
	copy(out, path)
	out[i] = v
	return out
}
'''))
R("dfs-stack", F(DU, "leafsAsConsts", '''
func leafsAsConsts(
	dim int,
	nodes []query.Node,
) ([]query.QConst, []query.QConst, error) {
	if len(nodes) == 0 {
		return nil, nil, nil
	}
	for _, n := range nodes {
		if err := validateNode(n, dim, len(nodes)); err != nil {
			return nil, nil, err
		}
	}
	type item struct {
		node int
		path []query.FeatV
	}
	var leaves [2][]query.QConst
	seen := make([]bool, len(nodes))
	stack := []item{{0, make([]query.FeatV, dim)}}
	for len(stack) > 0 {
		top := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[top.node] {
			continue
		}
		seen[top.node] = true
		n := nodes[top.node]
		if n.IsLeaf() {
			k := 0
			if n.Value {
				k = 1
			}
			leaves[k] = append(leaves[k], query.QConst{Val: top.path})
			continue
		}
		for _, s := range []struct {
			next int
			val  query.FeatV
		}{{n.OChild, query.ONE}, {n.ZChild, query.ZERO}} {
			p := append([]query.FeatV{}, top.path...)
			p[n.Feat] = s.val
			stack = append(stack, item{s.next, p})
		}
	}
	return leaves[1], leaves[0], nil
}
'''))
R("dfs-struct-queue", F(DU, "leafsAsConsts", '''
func leafsAsConsts(
	dim int,
	nodes []query.Node,
) ([]query.QConst, []query.QConst, error) {
	if len(nodes) == 0 {
		return nil, nil, nil
	}
	for i := range nodes {
		if err := validateNode(nodes[i], dim, len(nodes)); err != nil {
			return nil, nil, err
		}
	}
	paths := make([][]query.FeatV, len(nodes))
	paths[0] = make([]query.FeatV, dim)
	order := []int{0}
	var pleaf, nleaf []query.QConst
	for k := 0; k < len(order); k++ {
		i := order[k]
		n := nodes[i]
		if n.IsLeaf() {
			if n.Value {
				pleaf = append(pleaf, query.QConst{Val: paths[i]})
			} else {
				nleaf = append(nleaf, query.QConst{Val: paths[i]})
			}
			continue
		}
		if paths[n.ZChild] == nil {
			paths[n.ZChild] = append([]query.FeatV{}, paths[i]...)
			paths[n.ZChild][n.Feat] = query.ZERO
			order = append(order, n.ZChild)
		}
		if paths[n.OChild] == nil {
			paths[n.OChild] = append([]query.FeatV{}, paths[i]...)
			paths[n.OChild][n.Feat] = query.ONE
			order = append(order, n.OChild)
		}
	}
	return pleaf, nleaf, nil
}
'''))
R("dfs-switch-walk", E(DU, '''		if nodes[cp].Value {
			pleaf = append(pleaf, query.QConst{Val: tmp})
		} else {
			nleaf = append(nleaf, query.QConst{Val: tmp})
		}
''', '''		leaf := query.QConst{Val: tmp}
		target := &nleaf
		if nodes[cp].Value {
			target = &pleaf
		}
		*target = append(*target, leaf)
'''))
R("dfs-const-any", E(DC, '''	for _, p := range pleaf {
		for _, n := range nleaf {
			cons, err := leafCompare(sc, p, n)
			if err != nil {
				return cnf.CNF{}, err
			}

			if !cons {
				return cnf.FalseCNF, nil
			}
		}
	}

	return cnf.TrueCNF, nil
''', '''	result := cnf.TrueCNF
	for i := range pleaf {
		for j := range nleaf {
			if ok, err := leafCompare(sc, pleaf[i], nleaf[j]); err != nil {
				return cnf.CNF{}, err
			} else if !ok {
				result = cnf.FalseCNF
			}
		}
	}
	return result, nil
'''))
R("dfs-const-count", F(DC, "leafCompare", '''
func leafCompare(c, l1, l2 query.QConst) (bool, error) {
	dim := len(c.Val)
	if dim != len(l1.Val) || len(l2.Val) != dim {
		return false,
			errors.New("Invalid comparison of constants of different dim")
	}
	differ := func(i int) bool {
		a, b := l1.Val[i], l2.Val[i]
		return a != b && a*b != 0
	}
	n := 0
	for i := dim - 1; i >= 0; i-- {
		if c.Val[i] == query.BOT || !differ(i) {
			continue
		}
		n++
	}
	return n > 0, nil
}
'''))
R("dfs-var-helper", F(DV, "notAWitnessClause", '''
func notAWitnessClause(
	v query.QVar,
	l1, l2 query.QConst,
	ctx query.QContext,
) (clause cnf.Clause, err error) {
	if dim := ctx.Dim(); dim != len(l1.Val) || dim != len(l2.Val) {
		return clause,
			errors.New("Invalid comparison of constants of different dim")
	}
	for i, a := range l1.Val {
		switch b := l2.Val[i]; {
		case a == query.BOT, b == query.BOT, a == b:
		default:
			clause = append(clause, -ctx.CNFVar(v, i, int(query.BOT)))
		}
	}
	return clause, nil
}
'''))
AC_BODY = '''	var n query.Node
	dim := ctx.Dim()
	nvisited := make(map[int]struct{})
'''
def cut(file, start, end, new):
    def f(src):
        i = src.index(start)
        j = src.index(end, i)
        return src[:i] + new + src[j:]
    return file, f
R("allcomp-recursive", cut(AC, AC_BODY, "\n}\n", '''	w := &walker{nodes: nodes, val: sc.Val, want: ac.LeafValue, seen: make([]bool, len(nodes))}
	ok, err := w.all(0)
	if err != nil {
		return cnf.CNF{}, err
	}
	if !ok {
		return cnf.FalseCNF, nil
	}
	return cnf.TrueCNF, nil'''), A(AC, '''
type walker struct {
	nodes []query.Node
	val   []query.FeatV
	want  bool
	seen  []bool
}

func (w *walker) all(i int) (bool, error) {
	if w.seen[i] {
		return true, nil
	}
	w.seen[i] = true
	n := w.nodes[i]
	if n.IsLeaf() {
		return n.Value == w.want, nil
	}
	if err := validateNode(n, len(w.val), len(w.nodes)); err != nil {
		return false, err
	}
	if v := w.val[n.Feat]; v != query.ONE {
		if ok, err := w.all(n.ZChild); err != nil || !ok {
			return false, err
		}
	}
	if v := w.val[n.Feat]; v != query.ZERO {
		if ok, err := w.all(n.OChild); err != nil || !ok {
			return false, err
		}
	}
	return true, nil
}
'''))
R("allcomp-bool-slice", cut(AC, AC_BODY, "\n}\n", '''	seen := make([]bool, len(nodes))
	todo := []int{0}
	push := func(i int) {
		if !seen[i] {
			seen[i] = true
			todo = append(todo, i)
		}
	}
	for len(todo) > 0 {
		n := nodes[todo[0]]
		todo = todo[1:]
		if n.IsLeaf() {
			if n.Value != ac.LeafValue {
				return cnf.FalseCNF, nil
			}
			continue
		}
		if err := validateNode(n, ctx.Dim(), len(nodes)); err != nil {
			return cnf.CNF{}, err
		}
		v := sc.Val[n.Feat]
		if v == query.BOT || v == query.ZERO {
			push(n.ZChild)
		}
		if v == query.BOT || v == query.ONE {
			push(n.OChild)
		}
	}
	return cnf.TrueCNF, nil'''))
R("allcomp-children-slice", cut(AC, AC_BODY, "\n}\n", '''	dim := ctx.Dim()
	visited := map[int]bool{0: true}
	for stack := []int{0}; len(stack) > 0; {
		last := len(stack) - 1
		n := nodes[stack[last]]
		stack = stack[:last]
		if n.IsLeaf() && n.Value != ac.LeafValue {
			return cnf.FalseCNF, nil
		}
		if n.IsLeaf() {
			continue
		}
		if err := validateNode(n, dim, len(nodes)); err != nil {
			return cnf.CNF{}, err
		}
		var next []int
		switch sc.Val[n.Feat] {
		case query.BOT:
			next = []int{n.ZChild, n.OChild}
		case query.ZERO:
			next = []int{n.ZChild}
		case query.ONE:
			next = []int{n.OChild}
		}
		for _, k := range next {
			if visited[k] {
				continue
			}
			visited[k] = true
			stack = append(stack, k)
		}
	}
	return cnf.TrueCNF, nil'''))
R("allcomp-var-helper", cut(AV, '''		ncnf = ncnf.AppendConsistency(
			cnf.Clause{
				-ctx.CNFVar(sv, node.Feat, int(query.ZERO)),''', "\n	return ncnf, nil", '''		at := func(j int) int { return ctx.CNFVar(svReach, 0, j) }
		is := func(v query.FeatV) int { return ctx.CNFVar(sv, node.Feat, int(v)) }
		for _, b := range []struct {
			to  int
			val query.FeatV
		}{{node.ZChild, query.ZERO}, {node.OChild, query.ONE}} {
			ncnf = ncnf.AppendConsistency(
				cnf.Clause{-is(b.val), -at(i), at(b.to)},
				cnf.Clause{-is(query.BOT), -at(i), at(b.to)},
				cnf.Clause{at(i), -at(b.to)},
				cnf.Clause{is(b.val), is(query.BOT), -at(b.to)},
			)
		}
	}
'''))
R("allcomp-var-two-pass", cut(AV, "	ncnf = ncnf.AppendConsistency(cnf.Clause{ctx.CNFVar(svReach, 0, 0)})", "		ncnf = ncnf.AppendConsistency(\n", '''	reach := make([]int, len(nodes))
	for i := range nodes {
		reach[i] = ctx.CNFVar(svReach, 0, i)
	}
	bad := []cnf.Clause{}
	for i, node := range nodes {
		if node.IsLeaf() && node.Value != ac.LeafValue {
			bad = append(bad, cnf.Clause{-reach[i]})
		}
	}
	ncnf = ncnf.AppendSemantics(bad...)
	ncnf = ncnf.AppendConsistency(cnf.Clause{reach[0]})
	for i, node := range nodes {
		if node.IsLeaf() {
			continue
		}
'''))
R("isnode-const-count", cut(IC, "	dim := ctx.Dim()\n	visited", "	// Lets walk", '''	dim := ctx.Dim()
	nodes := ctx.Nodes()
	if len(nodes) == 0 {
		return cnf.CNF{}, errors.New("Invalid encoding on empty model")
	}
	decided := map[int]bool{}

'''), E(IC, "visited[node.Feat] = 1", "decided[node.Feat] = true"), E(IC, "	if allFeatsVisited(visited) {", "	if len(decided) == dim-sc.BotCount() {"))
R("isnode-const-step", cut(IC, "	node := nodes[0]\n", "	// If all features where", '''	var err error
	for i, leaf := 0, false; !leaf; {
		i, leaf, err = step(nodes, i, dim, sc.Val, visited)
		if err != nil {
			return cnf.CNF{}, err
		}
	}

'''), A(IC, '''
func step(nodes []query.Node, i, dim int, val []query.FeatV, visited []int) (int, bool, error) {
	n := nodes[i]
	if n.IsLeaf() {
		return i, true, nil
	}
	if n.Feat < 0 || n.Feat >= dim {
		return i, true, fmt.Errorf("Node's feature %d is out of range [0, %d]", n.Feat, dim-1)
	}
	v := val[n.Feat]
	if v == query.BOT {
		return i, true, nil
	}
	visited[n.Feat] = 1
	next, name := n.OChild, "OChild"
	if v == query.ZERO {
		next, name = n.ZChild, "ZChild"
	}
	if next < 0 || next >= len(nodes) {
		return i, true, fmt.Errorf("Node's %s out of bounds %d", name, next)
	}
	return next, false, nil
}
'''))
R("isnode-const-recursive", cut(IC, "	node := nodes[0]\n", "	// If all features where", '''	if err := mark(nodes, nodes[0], dim, sc, visited); err != nil {
		return cnf.CNF{}, err
	}

'''), A(IC, '''
func mark(nodes []query.Node, n query.Node, dim int, c query.QConst, visited []int) error {
	if n.IsLeaf() {
		return nil
	}
	if n.Feat < 0 || n.Feat >= dim {
		return fmt.Errorf("Node's feature %d is out of range [0, %d]", n.Feat, dim-1)
	}
	next := n.OChild
	switch c.Val[n.Feat] {
	case query.BOT:
		return nil
	case query.ZERO:
		next = n.ZChild
	}
	visited[n.Feat] = 1
	if next < 0 || next >= len(nodes) {
		return fmt.Errorf("Node's child out of bounds %d", next)
	}
	return mark(nodes, nodes[next], dim, c, visited)
}
'''))
R("isnode-var-map", cut(IV, "	fcl := []cnf.Clause{}\n", "	// Root is always", '''	byFeat := map[int][]int{}
	for i, node := range nodes {
		if !node.IsLeaf() {
			byFeat[node.Feat] = append(byFeat[node.Feat], i)
		}
	}
	for i := 0; i < dim; i++ {
		cl := cnf.Clause{ctx.CNFVar(sv, i, int(query.BOT))}
		for _, k := range byFeat[i] {
			cl = append(cl, ctx.CNFVar(svReach, 1, k))
		}
		ncnf = ncnf.AppendSemantics(cl)
	}

'''))
R("isnode-var-nested", cut(IV, "	fcl := []cnf.Clause{}\n", "	// Root is always", '''	for i := 0; i < dim; i++ {
		cl := cnf.Clause{}
		for k := len(nodes) - 1; k >= 0; k-- {
			if nodes[k].IsLeaf() || nodes[k].Feat != i {
				continue
			}
			cl = append(cl, ctx.CNFVar(svReach, 1, k))
		}
		cl = append(cl, ctx.CNFVar(sv, i, int(query.BOT)))
		ncnf = ncnf.AppendSemantics(cl)
	}

'''))
R("isnode-var-copy-append", E(IV, '''		fcl[node.Feat] = append(fcl[node.Feat], ctx.CNFVar(svReach, 1, i))
''', '''		cl := &fcl[node.Feat]
		*cl = append(*cl, ctx.CNFVar(svReach, 1, i))
'''))
LU_NEW = '''
func varBotCountClauses(
	v query.QVar,
	cv query.QVar,
	ctx query.QContext,
) (clauses []cnf.Clause) {
	dim := ctx.Dim()
	bot := make([]int, dim)
	cnt := make([][]int, dim)
	for i := range cnt {
		bot[i] = ctx.CNFVar(v, i, int(query.BOT))
		cnt[i] = make([]int, dim+1)
		row := cnt[i]
		for j := range row {
			row[j] = ctx.CNFVar(cv, i, j)
		}
	}
	add := func(lits ...int) { clauses = append(clauses, lits) }
	iff := func(a, b, cond int) {
		add(-a, b, cond)
		add(a, -b, cond)
	}
	add(-cnt[0][1], bot[0])
	add(-bot[0], cnt[0][1])
	add(-cnt[0][0], -bot[0])
	add(bot[0], cnt[0][0])
	for i := 1; i < dim; i++ {
		b, now, was := bot[i], cnt[i], cnt[i-1]
		add(-now[0], -b)
		add(-now[0], was[0])
		add(-was[0], b, now[0])
		for j := 1; j <= i+1; j++ {
			iff(now[j], was[j-1], -b)
			iff(now[j], was[j], b)
		}
	}
	for i := range cnt {
		for _, x := range cnt[i][min(i+2, dim+1):] {
			add(-x)
		}
	}
	return clauses
}
'''
R("lel-table", F(LU, "varBotCountClauses", LU_NEW))
R("lel-table-helper", F(LU, "varBotCountClauses", LU_NEW.replace("add := func(lits ...int) { clauses = append(clauses, lits) }", "out := &builder{}\n	add := out.add").replace("	return clauses\n", "	return out.clauses\n")), A(LU, '''
type builder struct{ clauses []cnf.Clause }

func (b *builder) add(lits ...int) { b.clauses = append(b.clauses, cnf.Clause(lits)) }
'''))
R("lel-while", E(LU, "	for i = 1; i < dim; i++ {", "	i = 0\n	for i+1 < dim {\n		i++"), E(LU, "		for j = 1; j < i+2; j++ {", "		for j = i + 1; j > 0; j-- {"))
R("lel-vv-slices", cut(LVV, "	var i, j int\n", "	return ncnf, nil", '''	last := ctx.Dim() - 1
	row := func(v query.QVar, n int) []int {
		r := make([]int, 0, n)
		for j := 0; j < n; j++ {
			r = append(r, ctx.CNFVar(v, last, j))
		}
		return r
	}
	ones, twos := row(svCount1, ctx.Dim()), row(svCount2, ctx.Dim())
	for i, x := range ones {
		cl := append(cnf.Clause{-x}, twos[:i+1]...)
		ncnf = ncnf.AppendSemantics(cl)
	}

'''))
R("lel-vv-grow", cut(LVV, "	var i, j int\n", "	return ncnf, nil", '''	dim := ctx.Dim()
	le := make(cnf.Clause, 0, dim)
	for i := 0; i < dim; i++ {
		le = append(le, ctx.CNFVar(svCount2, dim-1, i))
		cl := make(cnf.Clause, len(le)+1)
		copy(cl[1:], le)
		cl[0] = -ctx.CNFVar(svCount1, dim-1, i)
		ncnf = ncnf.AppendSemantics(cl)
	}

'''))
R("lel-cv-collect", cut(LCV, "	ncnf := cnf.CNF{}\n", "\n}\n", '''	var over []cnf.Clause
	for i := ctx.Dim(); i > sc.BotCount(); i-- {
		over = append(over, []int{-ctx.CNFVar(svCount, ctx.Dim()-1, i)})
	}
	return cnf.FromClauses(over).AppendConsistency(varBotCountClauses(sv, svCount, ctx)...), nil'''))
R("subs-vv-values", cut(SVV, "	clauses := []cnf.Clause{}\n", "	return cnf.From", '''	var clauses []cnf.Clause
	for _, val := range [...]query.FeatV{query.ONE, query.ZERO} {
		for i, dim := 0, ctx.Dim(); i < dim; i++ {
			clauses = append(clauses, cnf.Clause{
				ctx.CNFVar(sv2, i, int(val)),
				-ctx.CNFVar(sv1, i, int(val)),
			})
		}
	}

'''))
R("subs-vv-prealloc", cut(SVV, "	clauses := []cnf.Clause{}\n", "	return cnf.From", '''	dim := ctx.Dim()
	clauses := make([]cnf.Clause, 2*dim)
	for i := range clauses {
		val := query.ZERO
		if i%2 == 1 {
			val = query.ONE
		}
		clauses[i] = cnf.Clause{-ctx.CNFVar(sv1, i/2, int(val)), ctx.CNFVar(sv2, i/2, int(val))}
	}

'''))
R("subs-vc-others", cut(SVC, "	clauses := []cnf.Clause{}\n", "	return cnf.From", '''	clauses := make([]cnf.Clause, 0, 2*len(sc.Val))
	for i, ft := range sc.Val {
		for _, other := range []query.FeatV{query.ZERO, query.ONE} {
			if other != ft {
				clauses = append(clauses, cnf.Clause{-ctx.CNFVar(sv, i, int(other))})
			}
		}
	}

'''))
R("full-helper", cut(FV, "	clauses := []cnf.Clause{}\n", "	return cnf.From", '''	return cnf.FromClauses(units(ctx.Dim(), func(i int) int {
		return -ctx.CNFVar(sv, i, int(query.BOT))
	})), nil
}

func units(n int, lit func(int) int) []cnf.Clause {
	out := make([]cnf.Clause, n)
	for i := range out {
		out[i] = cnf.Clause{lit(i)}
	}
	return out
}

func unused() (cnf.CNF, error) {
	var clauses []cnf.Clause
'''))
R("hepr-vv-recursive", cut(HVV, "	ncnf := cnf.CNF{}\n", "\n	return ncnf.App", '''	ncnf := cnf.CNF{}
	at := func(i int) int { return ctx.CNFVar(vvp, 0, i) }
	bots := func(i int) (int, int) {
		f := d.Preference[i]
		return ctx.CNFVar(sv1, f, int(query.BOT)), ctx.CNFVar(sv2, f, int(query.BOT))
	}
	var rank func(i int)
	rank = func(i int) {
		a, b := bots(i)
		if i == len(d.Preference)-1 {
			ncnf = ncnf.AppendConsistency(
				cnf.Clause{-at(i), -a, b},
				cnf.Clause{a, at(i)},
				cnf.Clause{-b, at(i)},
			)
			return
		}
		rank(i + 1)
		ncnf = ncnf.AppendConsistency(
			cnf.Clause{-a, b, -at(i)},
			cnf.Clause{-a, -at(i), at(i + 1)},
			cnf.Clause{b, -at(i), at(i + 1)},
			cnf.Clause{a, -b, at(i)},
			cnf.Clause{a, at(i), -at(i + 1)},
			cnf.Clause{-b, at(i), -at(i + 1)},
		)
	}
	rank(0)
'''))
R("hepr-vv-reverse", cut(HVV, "	for i := plen - 2; i >= 0; i-- {\n		idx = d.Preference[i]\n", "		ncnf = ncnf.AppendConsistency(\n			// ->", '''	for i, idx := range d.Preference[:plen-1] {
'''))
R("hepr-cv-switch", E(HCV, '''		if sc.Val[idx] != query.BOT {
			ncnf = ncnf.AppendConsistency(
				cnf.Clause{
					-ctx.CNFVar(cvp, 0, i),''', '''		full := sc.Val[idx] != query.BOT
		if full {
			ncnf = ncnf.AppendConsistency(
				cnf.Clause{
					-ctx.CNFVar(cvp, 0, i),'''))
R("hepr-pref-strings", F(HU, "prefVar", '''
func prefVar(pref []int) query.QVar {
	parts := make([]string, len(pref))
	for i, idx := range pref {
		parts[i] = strconv.Itoa(idx)
	}
	return query.QVar(strings.Join(parts, ","))
}
'''))
R("hepr-pref-sprint", F(HU, "prefVar", '''
func prefVar(pref []int) (v query.QVar) {
	for _, idx := range pref {
		v += query.QVar(fmt.Sprintf("<%d>", idx))
	}
	return v
}
'''))
R("hepr-validate-map", F(HU, "validatePref", '''
func validatePref(pref []int, dim int) error {
	seen := map[int]int{}
	for k, i := range pref {
		if i >= dim || i < 0 {
			return fmt.Errorf("Preference feature index out of range '%d'", i)
		}
		if at, ok := seen[i]; ok {
			return fmt.Errorf("Invalid duplicate preference '%d' (%d and %d)", i, at, k)
		}
		seen[i] = k
	}
	return nil
}
'''))
R("hepr-cc-rank", cut(HCC, "	for _, idx := range d.Preference {\n", "\n}\n", '''	cmp := 0
	for k := len(d.Preference) - 1; k >= 0; k-- {
		idx := d.Preference[k]
		a, b := sc1.Val[idx] == query.BOT, sc2.Val[idx] == query.BOT
		switch {
		case a && !b:
			cmp = -1
		case !a && b:
			cmp = 1
		}
	}
	if cmp < 0 {
		return cnf.FalseCNF, nil
	}
	return cnf.TrueCNF, nil'''))
R("leh-shared", F(EU, "hammingDistVC", '''
func hammingDistVC(
	v query.QVar,
	c query.QConst,
	vcd query.QVar,
	ctx query.QContext,
) ([]cnf.Clause, error) {
	if err := query.ValidateConstsDim(ctx.Dim(), c); err != nil {
		return nil, err
	}
	return counter(vcd, func(i int) int { return ctx.CNFVar(v, i, int(c.Val[i])) }, ctx), nil
}

func counter(d query.QVar, same func(i int) int, ctx query.QContext) []cnf.Clause {
	dim := ctx.Dim()
	at := func(i, j int) int { return ctx.CNFVar(d, i, j) }
	clauses := []cnf.Clause{
		{-at(0, 0), same(0)},
		{-same(0), at(0, 0)},
		{-at(0, 1), -same(0)},
		{same(0), at(0, 1)},
	}
	for i := 0; i < dim; i++ {
		if i > 0 {
			e := same(i)
			clauses = append(clauses,
				cnf.Clause{-at(i, 0), at(i-1, 0)},
				cnf.Clause{-at(i, 0), e},
				cnf.Clause{-at(i-1, 0), -e, at(i, 0)},
			)
			for j := 1; j <= i+1; j++ {
				clauses = append(clauses,
					cnf.Clause{-at(i, j), at(i-1, j-1), e},
					cnf.Clause{-at(i, j), at(i-1, j), -e},
					cnf.Clause{at(i, j), -at(i-1, j-1), e},
					cnf.Clause{at(i, j), -at(i-1, j), -e},
				)
			}
		}
		for j := i + 2; j <= dim; j++ {
			clauses = append(clauses, cnf.Clause{-at(i, j)})
		}
	}
	return clauses
}
'''), F(EU, "hammingDistVV", '''
func hammingDistVV(vd, vfeq query.QVar, ctx query.QContext) []cnf.Clause {
	return counter(vd, func(i int) int { return ctx.CNFVar(vfeq, i, 0) }, ctx)
}
'''))
R("leh-eq-table", F(EU, "fullVarEqualClauses", '''
func fullVarEqualClauses(
	v1, v2, vfeq query.QVar,
	ctx query.QContext,
) []cnf.Clause {
	var clauses []cnf.Clause
	vals := []query.FeatV{query.ONE, query.ZERO}
	for _, a := range vals {
		for _, b := range vals {
			for i := 0; i < ctx.Dim(); i++ {
				eq := ctx.CNFVar(vfeq, i, 0)
				if a != b {
					eq = -eq
				}
				clauses = append(clauses, cnf.Clause{
					-ctx.CNFVar(v1, i, int(a)),
					-ctx.CNFVar(v2, i, int(b)),
					eq,
				})
			}
		}
	}
	return clauses
}
'''))
R("leh-vvv-loops", cut(EVVV, "	ncnf = ncnf.AppendSemantics(varFull", "	for i := 1; i <= dim; i++ {", '''	for _, v := range []query.QVar{sv3, sv1, sv2} {
		ncnf = ncnf.AppendSemantics(varFullClauses(v, ctx)...)
	}
	for _, p := range []struct{ v, d, e query.QVar }{
		{sv2, v1v2dh, v1v2ef},
		{sv3, v1v3dh, v1v3ef},
	} {
		ncnf = ncnf.AppendConsistency(fullVarEqualClauses(sv1, p.v, p.e, ctx)...)
		ncnf = ncnf.AppendConsistency(hammingDistVV(p.d, p.e, ctx)...)
	}

'''))
R("leh-vvv-conj", cut(EVVV, "	ncnf = ncnf.AppendSemantics(varFull", "	for i := 1; i <= dim; i++ {", '''	ncnf = ncnf.Conjunction(cnf.FromClauses(varFullClauses(sv1, ctx)))
	ncnf = ncnf.Conjunction(cnf.FromClauses(varFullClauses(sv2, ctx)))
	ncnf = ncnf.Conjunction(cnf.FromClauses(varFullClauses(sv3, ctx)))
	cons := fullVarEqualClauses(sv1, sv2, v1v2ef, ctx)
	cons = append(cons, fullVarEqualClauses(sv1, sv3, v1v3ef, ctx)...)
	cons = append(cons, hammingDistVV(v1v2dh, v1v2ef, ctx)...)
	cons = append(cons, hammingDistVV(v1v3dh, v1v3ef, ctx)...)
	ncnf = ncnf.AppendConsistency(cons...)

'''))
R("leh-cvc-early", cut(ECVC, "	if cchd == dim {\n", "	for i := cchd + 1; ", '''	full := varFullClauses(sv, ctx)
	if cchd >= dim {
		return cnf.FromClauses(full), nil
	}
	hdClauses, err := hammingDistVC(sv, sc1, vc1hd, ctx)
	if err != nil {
		return cnf.CNF{}, err
	}
	ncnf := cnf.CNF{}.AppendConsistency(hdClauses...).AppendSemantics(full...)
'''))
R("leh-hd-min", F(EU, "hammingDistCC", '''
func hammingDistCC(c1, c2 query.QConst) (hd int, err error) {
	if len(c1.Val) != len(c2.Val) {
		return 0, fmt.Errorf("Mismatched constant dimensions: %d - %d", len(c1.Val), len(c2.Val))
	}
	same := 0
	for i := range c2.Val {
		if c2.Val[i] == c1.Val[i] {
			same++
		}
	}
	return len(c1.Val) - same, nil
}
'''))
NOOP = '	_ = len("")\n'
R("noop-everywhere", *[(f, lambda s: re.sub(r"(?m)^(func [^\n]*\{|\) \(?[^\n]*\{)$", r'\1\n	_ = len("")', s)) for f in (IC, IV, LU, LVV, LCV, SVV, SVC, DU, DC, DV, AC, AV, HU, HVV, HCV, HCC, EU, EVVV, ECVC, FV)])
# compute
R("cs-scanner-text", F("compute/solver.go", "varValueFromBytes", '''
func varValueFromBytes(
	out []byte,
	v query.QVar,
	ctx query.QContext,
) (query.QConst, error) {
	filter := variableFilter(v, ctx)
	vval := map[int]bool{}
	rd := bufio.NewReader(strings.NewReader(string(out)))
	for {
		line, rerr := rd.ReadString('\\n')
		if rest, ok := strings.CutPrefix(line, "v"); ok {
			for _, f := range strings.Fields(rest) {
				n, err := strconv.Atoi(f)
				if err != nil {
					return query.QConst{}, err
				}
				if k := iAbs(n); filter[k] {
					vval[k] = n > 0
				}
			}
		}
		if rerr != nil {
			break
		}
	}
	c := query.QConst{Val: make([]query.FeatV, 0, ctx.Dim())}
	for i := 0; i < ctx.Dim(); i++ {
		found := false
		for _, val := range []query.FeatV{query.BOT, query.ONE, query.ZERO} {
			if vval[ctx.CNFVar(v, i, int(val))] {
				c.Val = append(c.Val, val)
				found = true
				break
			}
		}
		if !found {
			return query.QConst{}, fmt.Errorf("Solver output has no value for feature %d of variable '%s'", i, v)
		}
	}
	return c, nil
}
'''), I("compute/solver.go", "bufio", "strings", "strconv", "fmt"))

R("dfs-recursive-pure", F(DU, "leafsAsConsts", '''
func leafsAsConsts(
	dim int,
	nodes []query.Node,
) (pleaf, nleaf []query.QConst, err error) {
	if len(nodes) == 0 {
		return nil, nil, nil
	}
	for _, n := range nodes {
		if err := validateNode(n, dim, len(nodes)); err != nil {
			return nil, nil, err
		}
	}
	for _, l := range collect(nodes, 0, make([]query.FeatV, dim)) {
		c := query.QConst{Val: l.path}
		if l.value {
			pleaf = append(pleaf, c)
		} else {
			nleaf = append(nleaf, c)
		}
	}
	return pleaf, nleaf, nil
}

type leaf struct {
	path  []query.FeatV
	value bool
}

func collect(nodes []query.Node, i int, path []query.FeatV) []leaf {
	n := nodes[i]
	if n.IsLeaf() {
		return []leaf{{path, n.Value}}
	}
	return append(
		collect(nodes, n.ZChild, with(path, n.Feat, query.ZERO)),
		collect(nodes, n.OChild, with(path, n.Feat, query.ONE))...,
	)
}

func with(path []query.FeatV, i int, v query.FeatV) []query.FeatV {
	out := append([]query.FeatV{}, path...)
	out[i] = v
	return out
}
'''))
