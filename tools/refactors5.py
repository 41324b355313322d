# Rewrites of the kind a reviewer asks for: helpers shared between packages,
# closures for literals, early returns, the slices package, other loop shapes.
R("q-node-validate", A("query/model.go", '''
// Validate returns an error if n is invalid for the given dimension and number
// of nodes.
func (n Node) Validate(dim, nlen int) error {
	switch {
	case n.IsLeaf():
		return nil
	case n.Feat < 0 || n.Feat >= dim:
		return fmt.Errorf("Node's feature %d is out of range [0, %d]", n.Feat, dim-1)
	case n.ZChild < 0 || n.ZChild >= nlen:
		return fmt.Errorf("Node's ZChild out of bounds %d", n.ZChild)
	case n.OChild < 0 || n.OChild >= nlen:
		return fmt.Errorf("Node's OChild out of bounds %d", n.OChild)
	default:
		return nil
	}
}
'''), *[F(f, "validateNode(", '''
func validateNode(n query.Node, dim, nlen int) error {
	return n.Validate(dim, nlen)
}
''') for f in ("query/extensions/dfs/utils.go", "query/extensions/allcomp/utils.go", "query/predicates/isnode/utils.go", "query/logop/forallguarded.go")])
R("q-validate-nodes", A("query/extensions/allcomp/utils.go", '''
func validateNodes(nodes []query.Node, dim int) error {
	if len(nodes) == 0 {
		return errors.New("Invalid encoding on empty model")
	}
	for i := range nodes {
		if err := validateNode(nodes[i], dim, len(nodes)); err != nil {
			return err
		}
	}
	return nil
}
'''), E("query/extensions/allcomp/var.go", '''	if len(nodes) == 0 {
		return cnf.CNF{}, errors.New("Invalid encoding on empty model")
	}

	for _, node := range nodes {
		if err := validateNode(node, ctx.Dim(), len(nodes)); err != nil {
			return cnf.CNF{}, err
		}
	}
''', '''	if err := validateNodes(nodes, ctx.Dim()); err != nil {
		return cnf.CNF{}, err
	}
'''))
R("allcomp-closures", F("query/extensions/allcomp/var.go", "(ac Var) Encoding", '''
func (ac Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
	if ctx == nil {
		return cnf.CNF{}, errors.New("Invalid encoding with nil ctx")
	}
	if ac.ReachNodeVarGen == nil {
		return cnf.CNF{}, errors.New("Invalid nil var generation function")
	}

	nodes, dim := ctx.Nodes(), ctx.Dim()
	if len(nodes) == 0 {
		return cnf.CNF{}, errors.New("Invalid encoding on empty model")
	}
	for _, node := range nodes {
		if err := validateNode(node, dim, len(nodes)); err != nil {
			return cnf.CNF{}, err
		}
	}

	sv := ctx.ScopeVar(ac.I)
	svReach := ac.ReachNodeVarGen(sv)
	reach := func(i int) int { return ctx.CNFVar(svReach, 0, i) }
	has := func(f int, v query.FeatV) int { return ctx.CNFVar(sv, f, int(v)) }

	var sem []cnf.Clause
	con := []cnf.Clause{{reach(0)}}
	edge := func(feat, parent, child int, v query.FeatV) {
		con = append(con,
			cnf.Clause{-has(feat, v), -reach(parent), reach(child)},
			cnf.Clause{-has(feat, query.BOT), -reach(parent), reach(child)},
			cnf.Clause{-reach(child), reach(parent)},
			cnf.Clause{-reach(child), has(feat, v), has(feat, query.BOT)},
		)
	}

	for i, node := range nodes {
		switch {
		case !node.IsLeaf():
			edge(node.Feat, i, node.ZChild, query.ZERO)
			edge(node.Feat, i, node.OChild, query.ONE)
		case node.Value != ac.LeafValue:
			sem = append(sem, cnf.Clause{-reach(i)})
		}
	}

	return cnf.FromClauses(sem).AppendConsistency(con...), nil
}
'''))
R("isnode-closures", F("query/predicates/isnode/var.go", "(f Var) Encoding", '''
func (f Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
	if ctx == nil {
		return cnf.CNF{}, errors.New("Invalid encoding with nil ctx")
	}
	if f.ReachNodeVarGen == nil {
		return cnf.CNF{}, errors.New("Invalid nil var generation function")
	}

	dim, nodes := ctx.Dim(), ctx.Nodes()
	if len(nodes) == 0 {
		return cnf.CNF{}, errors.New("Invalid encoding on empty model")
	}
	for _, node := range nodes {
		if err := validateNode(node, dim, len(nodes)); err != nil {
			return cnf.CNF{}, err
		}
	}

	sv := ctx.ScopeVar(f.I)
	svReach := f.ReachNodeVarGen(sv)

	decided := make([]cnf.Clause, dim)
	for i := range decided {
		decided[i] = cnf.Clause{ctx.CNFVar(sv, i, int(query.BOT))}
	}

	ncnf := cnf.CNF{}.AppendConsistency(cnf.Clause{ctx.CNFVar(svReach, 1, 0)})
	for i := len(nodes) - 1; i >= 0; i-- {
		n := nodes[i]
		if n.IsLeaf() {
			continue
		}
		parent := ctx.CNFVar(svReach, 1, i)
		decided[n.Feat] = append(decided[n.Feat], parent)
		ncnf = ncnf.AppendConsistency(edgeClauses(parent, ctx.CNFVar(svReach, 1, n.ZChild), ctx.CNFVar(sv, n.Feat, int(query.ZERO)))...)
		ncnf = ncnf.AppendConsistency(edgeClauses(parent, ctx.CNFVar(svReach, 1, n.OChild), ctx.CNFVar(sv, n.Feat, int(query.ONE)))...)
	}

	return ncnf.AppendSemantics(decided...), nil
}

// edgeClauses encodes that child is reached iff parent is and val holds.
func edgeClauses(parent, child, val int) []cnf.Clause {
	return []cnf.Clause{
		{-val, -parent, child},
		{-child, parent},
		{-child, val},
	}
}
'''))
R("subs-vc-forbid", F("query/predicates/subsumption/var_const.go", "(s VarConst) Encoding", '''
func (s VarConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
	if ctx == nil {
		return cnf.CNF{}, errors.New("Invalid encoding with nil ctx")
	}

	sc, _ := ctx.ScopeConst(s.I2)
	sv := ctx.ScopeVar(s.I1)
	if err := query.ValidateConstsDim(ctx.Dim(), sc); err != nil {
		return cnf.CNF{}, err
	}

	clauses := make([]cnf.Clause, 0, 2*len(sc.Val))
	for i, ft := range sc.Val {
		for _, v := range []query.FeatV{query.ZERO, query.ONE} {
			if ft != v {
				clauses = append(clauses, cnf.Clause{-ctx.CNFVar(sv, i, int(v))})
			}
		}
	}

	return cnf.FromClauses(clauses), nil
}
'''))
R("leh-smaller-helper", A("query/extensions/leh/utils.go", '''
// notGreater returns the clauses encoding that the distance d1 is not greater
// than the distance d2.
func notGreater(d1, d2 query.QVar, ctx query.QContext) []cnf.Clause {
	var out []cnf.Clause
	last := ctx.Dim() - 1
	for j := 0; j <= last; j++ {
		for i := j + 1; i <= last+1; i++ {
			out = append(out, cnf.Clause{-ctx.CNFVar(d1, last, i), -ctx.CNFVar(d2, last, j)})
		}
	}
	return out
}
'''), E("query/extensions/leh/var_const_const.go", '''	for i := 1; i <= dim; i++ {
		for j := 0; j < i; j++ {
			ncnf = ncnf.AppendSemantics(
				cnf.Clause{
					-ctx.CNFVar(vc1hd, dim-1, i),
					-ctx.CNFVar(vc2hd, dim-1, j),
				},
			)
		}
	}

	return ncnf, nil
''', '''	return ncnf.AppendSemantics(notGreater(vc1hd, vc2hd, ctx)...), nil
'''))
R("leh-step-helper", F("query/extensions/leh/utils.go", "hammingDistVV(", '''
func hammingDistVV(vd, vfeq query.QVar, ctx query.QContext) []cnf.Clause {
	dim := ctx.Dim()
	d := func(i, j int) int { return ctx.CNFVar(vd, i, j) }
	eq := func(i int) int { return ctx.CNFVar(vfeq, i, 0) }

	clauses := iff(d(0, 0), eq(0))
	clauses = append(clauses, iff(d(0, 1), -eq(0))...)

	for i := 1; i < dim; i++ {
		clauses = append(clauses,
			cnf.Clause{-d(i, 0), d(i-1, 0)},
			cnf.Clause{-d(i, 0), eq(i)},
			cnf.Clause{-d(i-1, 0), -eq(i), d(i, 0)},
		)
		for j := 1; j <= i+1; j++ {
			clauses = append(clauses, guarded(eq(i), iff(d(i, j), d(i-1, j-1)))...)
			clauses = append(clauses, guarded(-eq(i), iff(d(i, j), d(i-1, j)))...)
		}
	}
	for i := 0; i < dim; i++ {
		for j := i + 2; j <= dim; j++ {
			clauses = append(clauses, cnf.Clause{-d(i, j)})
		}
	}

	return clauses
}

// iff encodes that the literals a and b are equivalent.
func iff(a, b int) []cnf.Clause {
	return []cnf.Clause{{-a, b}, {-b, a}}
}

// guarded weakens every clause by the literal l.
func guarded(l int, cls []cnf.Clause) []cnf.Clause {
	for i := range cls {
		cls[i] = append(cls[i], l)
	}
	return cls
}
'''))
R("lel-cv-slice", E("query/predicates/lel/const_var.go", '''	for i := sc.BotCount() + 1; i < ctx.Dim()+1; i++ {
		ncnf = ncnf.AppendSemantics(
			cnf.Clause{-ctx.CNFVar(svCount, ctx.Dim()-1, i)},
		)
	}

	return ncnf, nil
''', '''	dim := ctx.Dim()
	excess := []cnf.Clause{}
	for i := dim; i > sc.BotCount(); i-- {
		excess = append(excess, cnf.Clause{-ctx.CNFVar(svCount, dim-1, i)})
	}

	return ncnf.AppendSemantics(excess...), nil
'''))
R("hepr-cv-step", F("query/extensions/hepr/const_var.go", "(d ConstVar) Encoding", '''
func (d ConstVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
	switch {
	case ctx == nil:
		return cnf.CNF{}, errors.New("Invalid encoding with nil ctx")
	case d.FeaturePreferenceRankVarGen == nil:
		return cnf.CNF{}, errors.New("Invalid nil var generation function")
	}

	dim := ctx.Dim()
	if err := validatePref(d.Preference, dim); err != nil {
		return cnf.CNF{}, err
	}
	sc, _ := ctx.ScopeConst(d.I1)
	if err := query.ValidateConstsDim(dim, sc); err != nil {
		return cnf.CNF{}, err
	}
	plen := len(d.Preference)
	if plen == 0 {
		return cnf.TrueCNF, nil
	}

	sv := ctx.ScopeVar(d.I2)
	cvp := d.FeaturePreferenceRankVarGen(prefVar(d.Preference), query.QVar(sc.AsString()), sv)
	ranked := func(i int) int { return ctx.CNFVar(cvp, 0, i) }

	clauses := []cnf.Clause{}
	for i, idx := range d.Preference {
		bot, last := ctx.CNFVar(sv, idx, int(query.BOT)), i == plen-1
		switch def := sc.Val[idx] != query.BOT; {
		case def && last:
			clauses = append(clauses, cnf.Clause{ranked(i)})
		case last:
			clauses = append(clauses, cnf.Clause{-ranked(i), bot}, cnf.Clause{-bot, ranked(i)})
		case def:
			clauses = append(clauses,
				cnf.Clause{-ranked(i), bot, ranked(i + 1)},
				cnf.Clause{-bot, ranked(i)},
				cnf.Clause{-ranked(i + 1), ranked(i)},
			)
		default:
			clauses = append(clauses,
				cnf.Clause{-bot, -ranked(i + 1), ranked(i)},
				cnf.Clause{-ranked(i), bot},
				cnf.Clause{-ranked(i), ranked(i + 1)},
			)
		}
	}

	out := cnf.CNF{}.AppendConsistency(clauses...)
	return out.AppendSemantics(cnf.Clause{ranked(0)}), nil
}
'''))
R("dfs-const-pairs", F("query/extensions/dfs/const.go", "leafCompare(", '''
func leafCompare(c, l1, l2 query.QConst) (bool, error) {
	if n := len(c.Val); n != len(l1.Val) || n != len(l2.Val) {
		return false,
			errors.New("Invalid comparison of constants of different dim")
	}

	found := false
	for i := 0; i < len(c.Val) && !found; i++ {
		a, b := l1.Val[i], l2.Val[i]
		defined := c.Val[i] != query.BOT && a != query.BOT && b != query.BOT
		found = defined && a != b
	}

	return found, nil
}
'''))
R("dfs-const-split", E("query/extensions/dfs/const.go", '''	for _, p := range pleaf {
		for _, n := range nleaf {
			cons, err := leafCompare(sc, p, n)
			if err != nil {
				return cnf.CNF{}, err
			}

			if !cons {
				return cnf.FalseCNF, nil
			}
		}
	}

	return cnf.TrueCNF, nil
}
''', '''	ok, err := separates(sc, pleaf, nleaf)
	if err != nil {
		return cnf.CNF{}, err
	}
	if ok {
		return cnf.TrueCNF, nil
	}
	return cnf.FalseCNF, nil
}

// separates reports whether c decides between every leaf of ps and of ns.
func separates(c query.QConst, ps, ns []query.QConst) (bool, error) {
	for _, n := range ns {
		for _, p := range ps {
			if ok, err := leafCompare(c, p, n); !ok || err != nil {
				return false, err
			}
		}
	}
	return true, nil
}
'''))
R("with-feature-helper", F("query/logop/with_var.go", "(w WithVar) encodeI", '''
func (w WithVar) encodeI(ctx query.QContext) cnf.CNF {
	v := ctx.ScopeVar(w.I)

	// Lets not add consistency clauses twice.
	if ctx.CNFVarExists(v, 0, int(query.BOT)) {
		return cnf.CNF{}
	}

	clauses := []cnf.Clause{}
	for i := 0; i < ctx.Dim(); i++ {
		clauses = append(clauses, exactlyOne(
			ctx.CNFVar(v, i, int(query.ZERO)),
			ctx.CNFVar(v, i, int(query.ONE)),
			ctx.CNFVar(v, i, int(query.BOT)),
		)...)
	}
	return cnf.CNF{}.AppendConsistency(clauses...)
}

// exactlyOne encodes that exactly one of the literals holds.
func exactlyOne(lits ...int) []cnf.Clause {
	out := []cnf.Clause{append(cnf.Clause{}, lits...)}
	for i, a := range lits {
		for _, b := range lits[i+1:] {
			out = append(out, cnf.Clause{-a, -b})
		}
	}
	return out
}
'''))
R("logop-wrap-helper", E("query/logop/not.go", '''	defer func() {
		if err != nil {
			err = fmt.Errorf("Not: %w", err)
		}
	}()

	if n.Q == nil {
		return cnf.CNF{}, errors.New("Invalid encoding of nil child")
	}
	if ctx == nil {
		return cnf.CNF{}, errors.New("Invalid encoding with nil ctx")
	}

	ncnf, err = n.buildEncoding(ctx)

	return ncnf, err
''', '''	defer wrapErr("Not", &err)

	if err = checkChild(n.Q, ctx); err != nil {
		return cnf.CNF{}, err
	}

	return n.buildEncoding(ctx)
'''), A("query/logop/not.go", '''
// wrapErr adds the operator's name to an error.
func wrapErr(op string, err *error) {
	if *err != nil {
		*err = fmt.Errorf("%s: %w", op, *err)
	}
}

func checkChild(q LogOpQ, ctx query.QContext) error {
	if q == nil {
		return errors.New("Invalid encoding of nil child")
	}
	if ctx == nil {
		return errors.New("Invalid encoding with nil ctx")
	}
	return nil
}
'''))
R("fag-iter-methods", F("query/logop/forallguarded.go", "(i *nodeAsValuesIter) Next", '''
func (i *nodeAsValuesIter) Next() bool {
	for i.walk[i.cp].visited {
		if i.descend() {
			continue
		}
		if !i.ascend() {
			return false
		}
	}
	i.walk[i.cp].visited = true
	return true
}

// descend moves to a child that was not visited yet.
func (i *nodeAsValuesIter) descend() bool {
	n := i.nodes[i.cp]
	if n.IsLeaf() {
		return false
	}
	next, v := n.ZChild, query.ZERO
	if i.walk[next].visited {
		next, v = n.OChild, query.ONE
	}
	if i.walk[next].visited {
		return false
	}
	(*i.t)[n.Feat] = v
	i.walk[next].prev = i.cp
	i.cp = next
	return true
}

// ascend moves back to the parent, if there is one.
func (i *nodeAsValuesIter) ascend() bool {
	if i.cp == 0 {
		return false
	}
	i.cp = i.walk[i.cp].prev
	(*i.t)[i.nodes[i.cp].Feat] = query.BOT
	return true
}
'''))
R("cnf-clip", F("cnf/cnf.go", "(c CNF) AppendSemantics", '''
func (c CNF) AppendSemantics(clauses ...Clause) CNF {
	out := c
	out.sClauses = append(slices.Clip(c.sClauses), clauses...)
	out.tv = max(c.tv, maxVar(clauses))
	return out
}
'''), F("cnf/cnf.go", "(c CNF) AppendConsistency", '''
func (c CNF) AppendConsistency(clauses ...Clause) CNF {
	out := c
	out.cClauses = append(slices.Clip(c.cClauses), clauses...)
	out.tv = max(c.tv, maxVar(clauses))
	return out
}
'''))
R("cnf-clone", F("cnf/cnf.go", "(c CNF) Conjunction", '''
func (c CNF) Conjunction(oc CNF) CNF {
	return CNF{
		tv:       maxInt(maxVar(oc.sClauses), maxInt(c.tv, maxVar(oc.cClauses))),
		sClauses: append(slices.Clone(c.sClauses), oc.sClauses...),
		cClauses: append(slices.Clone(c.cClauses), oc.cClauses...),
	}
}
'''))
R("cnf-negate-clauses", F("cnf/cnf.go", "(c CNF) Negate", '''
func (c CNF) Negate(opt_topv ...int) CNF {
	topv := c.tv
	for _, v := range opt_topv[:min(1, len(opt_topv))] {
		topv = max(topv, v)
	}

	rcnf := CNF{tv: topv, cClauses: c.cClauses}
	switch {
	case len(c.sClauses) == 0:
		rcnf.sClauses = []Clause{{}}
	case !c.hasEmptySemanticClause():
		rcnf.sClauses = c.sClauses
		rcnf.tseytinNegation(topv)
	}
	return rcnf
}
'''))
R("cnf-all-clauses", F("cnf/cnf.go", "(c CNF) ToBytes", '''
func (c CNF) ToBytes() []byte {
	buf := []byte(fmt.Sprintf("p cnf %d %d\\n", c.tv, len(c.sClauses)+len(c.cClauses)))
	for _, cls := range [][]Clause{c.sClauses, c.cClauses} {
		for _, cl := range cls {
			for _, lit := range cl {
				buf = strconv.AppendInt(buf, int64(lit), 10)
				buf = append(buf, ' ')
			}
			buf = append(buf, '0', '\\n')
		}
	}
	return buf
}
'''))
R("cnf-tofile-defer-err", F("cnf/cnf.go", "(c CNF) ToFile", '''
func (c CNF) ToFile(path string) (err error) {
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	defer func() {
		if cerr := f.Close(); err == nil {
			err = cerr
		}
	}()

	_, err = fmt.Fprintf(f, "p cnf %d %d\\n", c.tv, len(c.sClauses)+len(c.cClauses))
	if err != nil {
		return err
	}
	if err = writeClauses(f, c.sClauses); err != nil {
		return err
	}
	return writeClauses(f, c.cClauses)
}

func writeClauses(f *os.File, clauses []Clause) error {
	for _, clause := range clauses {
		if _, err := f.WriteString(clauseToDIMACS(clause) + "\\n"); err != nil {
			return err
		}
	}
	return nil
}
'''))
R("inst-slices", F("query/instances.go", "(c QConst) EqualValue", '''
func (c QConst) EqualValue(t QConst) bool {
	return slices.Equal(c.Val, t.Val)
}
'''), F("query/instances.go", "(c QConst) IsFull", '''
func (c QConst) IsFull() bool {
	return !slices.Contains(c.Val, BOT)
}
'''))
R("sc-level-const", F("query/scoper.go", "(s *baseScoper) ScopeVar", '''
func (s *baseScoper) ScopeVar(v QVar) QVar {
	level, declared := s.vars[v]
	if len(s.scopes) == 0 || !declared {
		return v
	}

	defer s.builder.Reset()

	s.builder.WriteString(string(v))
	for _, sc := range s.scopes[:level] {
		s.writeSep()
		s.builder.WriteString(sc.target)
		s.writeSep()
		s.builder.WriteString(strconv.Itoa(sc.vIdx))
	}

	return QVar(s.builder.String())
}

// writeSep writes the unit separator.
func (s *baseScoper) writeSep() {
	s.builder.WriteByte(31)
}
'''))
R("sc-top", F("query/scoper.go", "(s *baseScoper) SetScope", '''
func (s *baseScoper) SetScope(vIdx int, val []FeatV) error {
	top := s.top()
	if top == nil {
		return errors.New("Invalid setting of scope in empty scoper")
	}
	top.vIdx, top.value = vIdx, val
	return nil
}

// top returns the innermost scope, nil if there is none.
func (s *baseScoper) top() *scope {
	if len(s.scopes) == 0 {
		return nil
	}
	return &s.scopes[len(s.scopes)-1]
}
'''))
R("vm-lookup", F("query/varmanager.go", "(vm *baseVarManager) CNFVar(", '''
func (vm *baseVarManager) CNFVar(v QVar, idx, value int) int {
	if !vm.CNFVarExists(v, idx, value) {
		vm.topv++
		vm.vars[varRep{v, idx, value}] = vm.topv
	}
	return vm.vars[varRep{v, idx, value}]
}
'''))
R("cs-parse-split", F("compute/solver.go", "varValueFromBytes(", '''
func varValueFromBytes(
	out []byte,
	v query.QVar,
	ctx query.QContext,
) (query.QConst, error) {
	truth, err := parseValuation(out, variableFilter(v, ctx))
	if err != nil {
		return query.QConst{}, err
	}

	c := query.QConst{Val: make([]query.FeatV, 0, ctx.Dim())}
	for i := 0; i < ctx.Dim(); i++ {
		ft, ok := featValue(truth, v, i, ctx)
		if !ok {
			return query.QConst{}, fmt.Errorf(
				"Solver output has no value for feature %d of variable '%s'", i, v,
			)
		}
		c.Val = append(c.Val, ft)
	}
	return c, nil
}

// featValue returns the value of v's i-th feature.
func featValue(truth map[int]bool, v query.QVar, i int, ctx query.QContext) (query.FeatV, bool) {
	for _, ft := range []query.FeatV{query.BOT, query.ONE, query.ZERO} {
		if truth[ctx.CNFVar(v, i, int(ft))] {
			return ft, true
		}
	}
	return query.BOT, false
}

// parseValuation reads the values of the variables that filter selects.
func parseValuation(out []byte, filter map[int]bool) (map[int]bool, error) {
	truth := map[int]bool{}
	for _, line := range bytes.Split(out, []byte{'\\n'}) {
		if !bytes.HasPrefix(line, []byte("v")) {
			continue
		}
		for _, field := range bytes.Fields(line[1:]) {
			lit, err := strconv.Atoi(string(field))
			if err != nil {
				return nil, err
			}
			if filter[iAbs(lit)] {
				truth[iAbs(lit)] = lit > 0
			}
		}
	}
	return truth, nil
}
'''))
R("cs-step-writer", F("compute/solver.go", "(s *binSolver) Step", '''
func (s *binSolver) Step(
	q Encodable,
	ctx query.QContext,
) error {
	f, err := os.CreateTemp("", "tmp.cnf")
	if err != nil {
		return err
	}
	path := f.Name()
	defer os.Remove(path)
	defer f.Close()

	if err := writeFormula(q, ctx, path); err != nil {
		return err
	}
	return s.solve(path)
}

// writeFormula writes q's formula to path.
func writeFormula(q Encodable, ctx query.QContext, path string) error {
	formula, err := q.Encoding(ctx)
	if err != nil {
		return err
	}
	return formula.ToFile(path)
}

// solve runs the solver on the formula in path and keeps its output.
func (s *binSolver) solve(path string) error {
	code, out, err := runSolver(exec.Command(s.solverPath, path))
	switch {
	case err != nil:
		return err
	case code == 20:
		return UnsatError
	default:
		s.output = out
		return nil
	}
}
'''))
R("cs-run-guard", F("compute/solver.go", "runSolver(", '''
func runSolver(cmd *exec.Cmd) (int, []byte, error) {
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr

	err := cmd.Run()
	if err == nil {
		return 0, nil, errors.New("Solver exit code could not be recovered")
	}

	var exitErr *exec.ExitError
	if !errors.As(err, &exitErr) {
		return 0, nil, err
	}

	switch code := exitErr.ExitCode(); code {
	case 10, 20:
		return code, stdout.Bytes(), nil
	default:
		return code, nil, errors.New(stderr.String())
	}
}
'''))
R("cs-run-state", F("compute/solver.go", "runSolver(", '''
func runSolver(cmd *exec.Cmd) (int, []byte, error) {
	var stderr, stdout bytes.Buffer
	cmd.Stderr = &stderr
	cmd.Stdout = &stdout

	err := cmd.Run()
	if err == nil {
		return 0, nil, errors.New("Solver exit code could not be recovered")
	}
	if _, ok := err.(*exec.ExitError); !ok {
		return 0, nil, err
	}

	exitCode := cmd.ProcessState.ExitCode()
	if exitCode != 10 && exitCode != 20 {
		return exitCode, nil, errors.New(stderr.String())
	}
	return exitCode, stdout.Bytes(), nil
}
'''))
R("co-for-steps", E("compute/optimum.go", '''	steps := 1

	for {
		steps += 1

		bm, err''', '''	steps := 2
	for ; ; steps++ {
		bm, err'''))
R("co-search", E("compute/optimum.go", '''	var bm []query.QConst

''', ''), E("compute/optimum.go", '''	if err = solver.Step(logop.WithVar{I: v, Q: fg(v)}, ctx); err != nil {
		if errors.Is(err, UnsatError) {
			return OptOutput{false, query.QConst{}, 1}, nil
		}

		return OptOutput{false, query.QConst{}, 0}, err
	}

	steps := 1

	for {
		steps += 1

		bm, err = solver.Values([]query.QVar{v}, ctx)
		if err != nil {
			return OptOutput{false, query.QConst{}, 0}, err
		}

		ctx.Reset()

		err = solver.Step(
			logop.WithVar{
				I: v,
				Q: logop.And{
					Q1: fg(v),
					Q2: og(v, bm[0]),
				},
			},
			ctx,
		)
		if err != nil {
			if errors.Is(err, UnsatError) {
				break
			}
			return OptOutput{false, query.QConst{}, 0}, err
		}
	}

	return OptOutput{true, bm[0], steps}, nil
}
''', '''	best, found, err := search(fg(v), v, ctx, solver)
	if err != nil {
		return OptOutput{}, err
	}
	if !found {
		return OptOutput{Calls: 1}, nil
	}

	for calls := 2; ; calls++ {
		ctx.Reset()

		next, found, err := search(logop.And{Q1: fg(v), Q2: og(v, best)}, v, ctx, solver)
		if err != nil {
			return OptOutput{}, err
		}
		if !found {
			return OptOutput{Found: true, Value: best, Calls: calls}, nil
		}
		best = next
	}
}

// search returns a value of v that makes q true, if there is one.
func search(q Encodable, v query.QVar, ctx query.QContext, solver Solver) (query.QConst, bool, error) {
	err := solver.Step(logop.WithVar{I: v, Q: q}, ctx)
	if errors.Is(err, UnsatError) {
		return query.QConst{}, false, nil
	}
	if err != nil {
		return query.QConst{}, false, err
	}
	vals, err := solver.Values([]query.QVar{v}, ctx)
	if err != nil {
		return query.QConst{}, false, err
	}
	return vals[0], true, nil
}
'''))
R("cb-atom-switch", E("compute/boolcomb.go", '''	err := solver.Step(a.Query, ctx)
	if err != nil {
		if errors.Is(err, UnsatError) {
			return a.Negated, nil
		}

		return false, err
	}

	return !a.Negated, nil
''', '''	switch err := solver.Step(a.Query, ctx); {
	case err == nil:
		return !a.Negated, nil
	case errors.Is(err, UnsatError):
		return a.Negated, nil
	default:
		return false, err
	}
'''))
R("cb-loop-index", E("compute/boolcomb.go", '''	for _, elem := range oc {
		sat, err := elem.Sat(ctx, solver)
		if err != nil {
			return false, err
		}

		if sat {
			return true, nil
		}
	}

	return false, nil
''', '''	for i := 0; i < len(oc); i++ {
		if sat, err := oc[i].Sat(ctx, solver); sat || err != nil {
			return sat && err == nil, err
		}
	}

	return false, nil
'''))
