# Rewrites in further idioms: literal tables, small types with methods,
# generics, callbacks, maps of functions, split loops, error helpers.
CV, CCV = "query/extensions/cons/var_var.go", "query/extensions/cons/const_var.go"
LVV = "query/predicates/lel/var_var.go"
HU, HVV = "query/extensions/hepr/util.go", "query/extensions/hepr/var_var.go"
DV = "query/extensions/dfs/var.go"
SV_ = "query/predicates/subsumption/const_var.go"
SOL, BC, OPT = "compute/solver.go", "compute/boolcomb.go", "compute/optimum.go"
CN = "cnf/cnf.go"
WV, FAGF = "query/logop/with_var.go", "query/logop/forallguarded.go"

R("cons-vv-pairs", F(CV, "(c VarVar) Encoding", '''
func (c VarVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
	if ctx == nil {
		return cnf.CNF{}, errors.New("Invalid encoding with nil ctx")
	}

	sv1, sv2 := ctx.ScopeVar(c.I1), ctx.ScopeVar(c.I2)
	clash := [...][2]query.FeatV{{query.ONE, query.ZERO}, {query.ZERO, query.ONE}}

	out := cnf.CNF{}
	for i, dim := 0, ctx.Dim(); i < dim; i++ {
		for _, p := range clash {
			out = out.AppendSemantics(cnf.Clause{
				-ctx.CNFVar(sv1, i, int(p[0])),
				-ctx.CNFVar(sv2, i, int(p[1])),
			})
		}
	}

	return out, nil
}
'''))
R("cons-vv-lit-func", F(CV, "(c VarVar) Encoding", '''
func (c VarVar) Encoding(ctx query.QContext) (res cnf.CNF, err error) {
	if ctx == nil {
		err = errors.New("Invalid encoding with nil ctx")
		return
	}

	not := func(v query.QVar, i int, f query.FeatV) int {
		return -ctx.CNFVar(v, i, int(f))
	}
	v, w := ctx.ScopeVar(c.I1), ctx.ScopeVar(c.I2)
	n := ctx.Dim()
	cls := make([]cnf.Clause, 2*n)
	for i := 0; i < n; i++ {
		cls[2*i] = cnf.Clause{not(v, i, query.ONE), not(w, i, query.ZERO)}
		cls[2*i+1] = cnf.Clause{not(v, i, query.ZERO), not(w, i, query.ONE)}
	}
	res = cnf.FromClauses(cls)
	return
}
'''))
R("lel-vv-prefix", F(LVV, "(l VarVar) Encoding", '''
func (l VarVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
	switch {
	case ctx == nil:
		return cnf.CNF{}, errors.New("Invalid encoding with nil ctx")
	case l.CountVarGen == nil:
		return cnf.CNF{}, errors.New("Invalid nil var generation function")
	}

	var (
		sv   [2]query.QVar
		cnt  [2]query.QVar
		ncnf cnf.CNF
	)
	for k, v := range [2]query.QVar{l.I1, l.I2} {
		sv[k] = ctx.ScopeVar(v)
		cnt[k] = l.CountVarGen(sv[k])
		ncnf = ncnf.AppendConsistency(varBotCountClauses(sv[k], cnt[k], ctx)...)
	}

	last := ctx.Dim() - 1
	upto := []int{}
	for i := 0; i <= last; i++ {
		upto = append(upto, ctx.CNFVar(cnt[1], last, i))
		cl := make(cnf.Clause, 0, len(upto)+1)
		cl = append(cl, -ctx.CNFVar(cnt[0], last, i))
		ncnf = ncnf.AppendSemantics(append(cl, upto...))
	}

	return ncnf, nil
}
'''))
R("hepr-vv-lits", F(HVV, "(d VarVar) Encoding", '''
func (d VarVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
	if ctx == nil {
		return cnf.CNF{}, errors.New("Invalid encoding with nil ctx")
	}
	if d.FeaturePreferenceRankVarGen == nil {
		return cnf.CNF{}, errors.New("Invalid nil var generation function")
	}
	if err := validatePref(d.Preference, ctx.Dim()); err != nil {
		return cnf.CNF{}, err
	}

	n := len(d.Preference)
	if n == 0 {
		return cnf.TrueCNF, nil
	}

	sv1 := ctx.ScopeVar(d.I1)
	sv2 := ctx.ScopeVar(d.I2)
	rank := d.FeaturePreferenceRankVarGen(prefVar(d.Preference), sv1, sv2)

	var clauses []cnf.Clause
	add := func(lits ...int) { clauses = append(clauses, lits) }

	for i, idx := range d.Preference {
		a := ctx.CNFVar(sv1, idx, int(query.BOT))
		b := ctx.CNFVar(sv2, idx, int(query.BOT))
		p := ctx.CNFVar(rank, 0, i)
		if i == n-1 {
			add(-p, -a, b)
			add(a, p)
			add(-b, p)
			break
		}
		q := ctx.CNFVar(rank, 0, i+1)
		add(-a, b, -p)
		add(-a, -p, q)
		add(b, -p, q)
		add(a, -b, p)
		add(a, p, -q)
		add(-b, p, -q)
	}

	return cnf.CNF{}.AppendConsistency(clauses...).AppendSemantics(cnf.Clause{ctx.CNFVar(rank, 0, 0)}), nil
}
'''))
R("hepr-validate-sorted", F(HU, "validatePref(", '''
func validatePref(pref []int, dim int) error {
	count := map[int]int{}
	for _, i := range pref {
		count[i]++
		switch {
		case i < 0, i >= dim:
			return fmt.Errorf("Preference feature index out of range '%d'", i)
		case count[i] > 1:
			return fmt.Errorf("Invalid duplicate preference '%d'", i)
		}
	}
	return nil
}
'''))
R("hepr-pref-trim", F(HU, "prefVar(", '''
func prefVar(pref []int) query.QVar {
	s := ""
	for _, idx := range pref {
		s += "," + strconv.Itoa(idx)
	}
	return query.QVar(strings.TrimPrefix(s, ","))
}
'''))
R("dfs-var-blocking", F(DV, "(d Var) Encoding", '''
func (d Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
	if ctx == nil {
		return cnf.CNF{}, errors.New("Invalid encoding with nil ctx")
	}

	pos, neg, err := leafsAsConsts(ctx.Dim(), ctx.Nodes())
	switch {
	case err != nil:
		return cnf.CNF{}, err
	case len(pos)+len(neg) == 0:
		return cnf.CNF{}, errors.New("Invalid encoding on empty model")
	}

	v := ctx.ScopeVar(d.I)
	clauses := make([]cnf.Clause, 0, len(pos)*len(neg))
	for k := 0; k < len(pos)*len(neg); k++ {
		cl, err := notAWitnessClause(v, pos[k/len(neg)], neg[k%len(neg)], ctx)
		if err != nil {
			return cnf.CNF{}, err
		}
		clauses = append(clauses, cl)
	}

	return cnf.FromClauses(clauses), nil
}
'''))
R("dfs-witness-diff", F(DV, "notAWitnessClause(", '''
func notAWitnessClause(
	v query.QVar,
	l1, l2 query.QConst,
	ctx query.QContext,
) (cnf.Clause, error) {
	if n := ctx.Dim(); len(l1.Val) != n || len(l2.Val) != n {
		return cnf.Clause{},
			errors.New("Invalid comparison of constants of different dim")
	}

	clause := cnf.Clause{}
	for i, a := range l1.Val {
		b := l2.Val[i]
		if a == query.BOT || b == query.BOT {
			continue
		}
		if a == b {
			continue
		}
		clause = append(clause, -ctx.CNFVar(v, i, int(query.BOT)))
	}
	return clause, nil
}
'''))
R("subs-cv-switch", F(SV_, "(s ConstVar) Encoding", '''
func (s ConstVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
	if ctx == nil {
		return cnf.CNF{}, errors.New("Invalid encoding with nil ctx")
	}

	sc, _ := ctx.ScopeConst(s.I1)
	if err := query.ValidateConstsDim(ctx.Dim(), sc); err != nil {
		return cnf.CNF{}, err
	}

	sv := ctx.ScopeVar(s.I2)
	res := cnf.TrueCNF
	for i := len(sc.Val) - 1; i >= 0; i-- {
		switch ft := sc.Val[i]; ft {
		case query.ZERO, query.ONE:
			res = res.AppendSemantics([]int{ctx.CNFVar(sv, i, int(ft))})
		default:
		}
	}
	return res, nil
}
'''))
R("cb-generic", F(BC, "(ac AndCombinator) Sat", '''
func (ac AndCombinator) Sat(ctx query.QContext, solver Solver) (bool, error) {
	sat, err := first(ac, false, ctx, solver)
	return err == nil && !sat, err
}

// first reports whether some element's answer is want.
func first(
	elems []QDTFCombinator,
	want bool,
	ctx query.QContext,
	solver Solver,
) (bool, error) {
	for i := range elems {
		switch sat, err := elems[i].Sat(ctx, solver); {
		case err != nil:
			return false, err
		case sat == want:
			return true, nil
		}
	}
	return false, nil
}
'''), F(BC, "(oc OrCombinator) Sat", '''
func (oc OrCombinator) Sat(ctx query.QContext, solver Solver) (bool, error) {
	return first(oc, true, ctx, solver)
}
'''))
R("cb-atom-xor", F(BC, "(a QDTFAtom) Sat", '''
func (a QDTFAtom) Sat(
	ctx query.QContext,
	solver Solver,
) (bool, error) {
	if ctx != nil {
		ctx.Reset()
	}

	found := true
	if err := solver.Step(a.Query, ctx); errors.Is(err, UnsatError) {
		found = false
	} else if err != nil {
		return false, err
	}

	return found != a.Negated, nil
}
'''))
R("co-step-closure", F(OPT, "ComputeOptim(", '''
func ComputeOptim(
	fg SVFormula,
	og VCOrder,
	v query.QVar,
	ctx query.QContext,
	solver Solver,
) (OptOutput, error) {
	out := OptOutput{}

	// better looks for an instance that precedes the one in out.
	better := func() (bool, error) {
		if ctx != nil {
			ctx.Reset()
		}
		var q logop.LogOpQ = fg(v)
		if out.Found {
			q = logop.And{Q1: q, Q2: og(v, out.Value)}
		}
		switch err := solver.Step(logop.WithVar{I: v, Q: q}, ctx); {
		case errors.Is(err, UnsatError):
			return false, nil
		case err != nil:
			return false, err
		}
		vals, err := solver.Values([]query.QVar{v}, ctx)
		if err != nil {
			return false, err
		}
		out.Found, out.Value = true, vals[0]
		return true, nil
	}

	for {
		more, err := better()
		if err != nil {
			return OptOutput{}, err
		}
		out.Calls++
		if !more {
			return out, nil
		}
	}
}
'''))
R("co-bool-loop", F(OPT, "ComputeOptim(", '''
func ComputeOptim(
	fg SVFormula,
	og VCOrder,
	v query.QVar,
	ctx query.QContext,
	solver Solver,
) (OptOutput, error) {
	if ctx != nil {
		ctx.Reset()
	}

	target := []query.QVar{v}
	var best []query.QConst
	err := solver.Step(logop.WithVar{I: v, Q: fg(v)}, ctx)
	calls := 1
	for ; err == nil; calls++ {
		if best, err = solver.Values(target, ctx); err != nil {
			return OptOutput{}, err
		}
		ctx.Reset()
		err = solver.Step(logop.WithVar{I: v, Q: logop.And{Q1: fg(v), Q2: og(v, best[0])}}, ctx)
	}
	if !errors.Is(err, UnsatError) {
		return OptOutput{}, err
	}
	if best == nil {
		return OptOutput{Calls: calls}, nil
	}
	return OptOutput{Found: true, Value: best[0], Calls: calls}, nil
}
'''))
R("cs-bits", F(SOL, "varValueFromBytes(", '''
func varValueFromBytes(
	out []byte,
	v query.QVar,
	ctx query.QContext,
) (query.QConst, error) {
	type slot struct {
		feat int
		val  query.FeatV
	}
	slots := map[int]slot{}
	order := []query.FeatV{query.BOT, query.ONE, query.ZERO}
	for i := 0; i < ctx.Dim(); i++ {
		for _, f := range order {
			slots[ctx.CNFVar(v, i, int(f))] = slot{i, f}
		}
	}

	held := make(map[slot]bool, len(slots))
	for _, line := range strings.Split(string(out), "\\n") {
		if !strings.HasPrefix(line, "v") {
			continue
		}
		for _, word := range strings.Fields(line[1:]) {
			n, err := strconv.Atoi(word)
			if err != nil {
				return query.QConst{}, err
			}
			if s, ok := slots[iAbs(n)]; ok {
				held[s] = n > 0
			}
		}
	}

	var c query.QConst
next:
	for i := 0; i < ctx.Dim(); i++ {
		for _, f := range order {
			if held[slot{i, f}] {
				c.Val = append(c.Val, f)
				continue next
			}
		}
		return query.QConst{}, fmt.Errorf(
			"Solver output has no value for feature %d of variable '%s'",
			i,
			v,
		)
	}

	return c, nil
}
'''), F(SOL, "variableFilter(", ""), I(SOL, "strings"))
R("cs-step-split2", F(SOL, "(s *binSolver) Step(", '''
func (s *binSolver) Step(
	q Encodable,
	ctx query.QContext,
) error {
	path, done, err := tempCNF()
	if err != nil {
		return err
	}
	defer done()

	formula, err := q.Encoding(ctx)
	if err == nil {
		err = formula.ToFile(path)
	}
	if err != nil {
		return err
	}

	switch code, output, err := runSolver(exec.Command(s.solverPath, path)); {
	case err != nil:
		return err
	case code == 20:
		return UnsatError
	default:
		s.output = output
	}
	return nil
}

// tempCNF creates a temporary file and returns its path and a function that
// removes it.
func tempCNF() (string, func(), error) {
	f, err := os.CreateTemp("", "tmp.cnf")
	if err != nil {
		return "", nil, err
	}
	return f.Name(), func() {
		f.Close()
		os.Remove(f.Name())
	}, nil
}
'''))
R("cs-run-errors-as", F(SOL, "runSolver(", '''
func runSolver(cmd *exec.Cmd) (int, []byte, error) {
	var stderr, stdout bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr

	err := cmd.Run()
	if err == nil {
		return 0, nil, errors.New("Solver exit code could not be recovered")
	}
	exitErr, ok := err.(*exec.ExitError)
	if !ok {
		return 0, nil, err
	}
	switch code := exitErr.ExitCode(); code {
	case 10, 20:
		return code, stdout.Bytes(), nil
	default:
		return code, nil, errors.New(stderr.String())
	}
}
'''))
R("cnf-lists", F(CN, "(c CNF) ToBytes(", '''
func (c CNF) ToBytes() []byte {
	lines := make([]string, 0, 1+len(c.sClauses)+len(c.cClauses))
	lines = append(lines, fmt.Sprintf("p cnf %d %d", c.tv, cap(lines)-1))
	for _, list := range [][]Clause{c.sClauses, c.cClauses} {
		for _, clause := range list {
			lines = append(lines, clauseToDIMACS(clause))
		}
	}
	return []byte(strings.Join(lines, "\\n") + "\\n")
}
'''), I(CN, "strings"))
R("cnf-tofile-each", F(CN, "(c CNF) ToFile(", '''
func (c CNF) ToFile(path string) (err error) {
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	defer f.Close()

	put := func(s string) {
		if err == nil {
			_, err = f.WriteString(s + "\\n")
		}
	}
	put(fmt.Sprintf("p cnf %d %d", c.tv, len(c.sClauses)+len(c.cClauses)))
	for _, clause := range c.sClauses {
		put(clauseToDIMACS(clause))
	}
	for _, clause := range c.cClauses {
		put(clauseToDIMACS(clause))
	}
	return err
}
'''))
R("cnf-negate-switch", F(CN, "(c CNF) Negate(", '''
func (c CNF) Negate(opt_topv ...int) CNF {
	topv := c.tv
	for i, v := range opt_topv {
		if i == 0 && v > topv {
			topv = v
		}
	}

	out := CNF{tv: topv, cClauses: c.cClauses}
	switch {
	case len(c.sClauses) == 0:
		out.sClauses = []Clause{{}}
	case c.hasEmptySemanticClause():
	default:
		out.sClauses = c.sClauses
		out.tseytinNegation(topv)
	}
	return out
}
'''))
R("cnf-tseytin-return", F(CN, "(c *CNF) tseytinNegation(", '''
func (c *CNF) tseytinNegation(tv int) {
	n := len(c.cClauses)
	cons := append([]Clause{}, c.cClauses...)
	enclits := make(Clause, 0, len(c.sClauses)+1)

	for _, clause := range c.sClauses {
		switch len(clause) {
		case 0:
			c.sClauses, c.tv = nil, tv
			return
		case 1:
			enclits = append(enclits, -clause[0])
			continue
		}
		tv++
		wide := make(Clause, 0, len(clause)+1)
		for _, lit := range clause {
			cons = append(cons, Clause{-lit, -tv})
			wide = append(wide, lit)
		}
		cons = append(cons, append(wide, tv))
		enclits = append(enclits, tv)
	}

	_ = n
	c.cClauses, c.tv = cons, tv
	if len(enclits) == 1 {
		c.sClauses = []Clause{enclits}
		return
	}
	c.addNegationIFFClauses(enclits)
}
'''))
R("cnf-pointer-accum", F(CN, "(c CNF) Conjunction(", '''
func (c CNF) Conjunction(oc CNF) CNF {
	res := c
	for _, part := range []struct {
		dst *[]Clause
		src []Clause
	}{{&res.sClauses, oc.sClauses}, {&res.cClauses, oc.cClauses}} {
		joined := make([]Clause, 0, len(*part.dst)+len(part.src))
		joined = append(joined, *part.dst...)
		*part.dst = append(joined, part.src...)
	}
	if oc.tv > res.tv {
		res.tv = maxInt(maxVar(oc.sClauses), maxVar(oc.cClauses))
		res.tv = maxInt(res.tv, c.tv)
	}
	return res
}
'''))
R("cnf-falsy-any", F(CN, "(c CNF) TriviallyFalse(", '''
func (c CNF) TriviallyFalse() bool {
	return c.hasEmptySemanticClause() || (CNF{sClauses: c.cClauses}).hasEmptySemanticClause()
}
'''))
R("with-named", F(WV, "(w WithVar) buildEncoding(", '''
func (w WithVar) buildEncoding(
	ctx query.QContext,
) (res cnf.CNF, err error) {
	res = w.encodeI(ctx)
	var body cnf.CNF
	if body, err = w.Q.Encoding(ctx); err == nil {
		return res.Conjunction(body), nil
	}
	return cnf.CNF{}, err
}
'''))
R("fag-validate-first", F(FAGF, "newNodeAsValuesIter(", '''
func newNodeAsValuesIter(
	dim int,
	nodes []query.Node,
) (*[]query.FeatV, nodeAsValuesIter, error) {
	count := len(nodes)
	if count == 0 {
		return nil, nodeAsValuesIter{}, errors.New("Invalid iteration over empty model")
	}
	for i := count - 1; i >= 0; i-- {
		if err := validateNode(nodes[i], dim, count); err != nil {
			return nil, nodeAsValuesIter{}, err
		}
	}

	t := make([]query.FeatV, dim)
	return &t, nodeAsValuesIter{
		t:     &t,
		nodes: nodes,
		walk:  make([]walkInfo, count),
	}, nil
}
'''))
R("fag-validate-table", F(FAGF, "validateNode(", '''
func validateNode(n query.Node, dim, nlen int) error {
	if n.IsLeaf() {
		return nil
	}
	for _, c := range []struct {
		what       string
		val, limit int
	}{
		{"feature", n.Feat, dim},
		{"ZChild", n.ZChild, nlen},
		{"OChild", n.OChild, nlen},
	} {
		if c.val < 0 || c.val >= c.limit {
			return fmt.Errorf("Node's %s %d is out of range [0, %d]", c.what, c.val, c.limit-1)
		}
	}
	return nil
}
'''))
R("inst-equal-idx", F("query/instances.go", "(c QConst) EqualValue(", '''
func (c QConst) EqualValue(t QConst) bool {
	equal := len(c.Val) == len(t.Val)
	for i := 0; equal && i < len(c.Val); i++ {
		equal = c.Val[i] == t.Val[i]
	}
	return equal
}
'''))
R("inst-validate-lens", F("query/instances.go", "ValidateConstsDim(", '''
func ValidateConstsDim(
	d int,
	consts ...QConst,
) error {
	for k := 0; k < len(consts); k++ {
		n := len(consts[k].Val)
		if n == d {
			continue
		}
		return fmt.Errorf("constant%d: wrong dim %d (%d feats in context)", k+1, n, d)
	}
	return nil
}
'''))
R("sc-scopevar-bytes", F("query/scoper.go", "(s *baseScoper) ScopeVar(", '''
func (s *baseScoper) ScopeVar(v QVar) QVar {
	level, declared := s.vars[v]
	if !declared || level == 0 {
		return v
	}

	name := []byte(v)
	for _, sc := range s.scopes[:level] {
		name = append(name, 31)
		name = append(name, sc.target...)
		name = append(name, 31)
		name = strconv.AppendInt(name, int64(sc.vIdx), 10)
	}
	return QVar(name)
}
'''))
R("sc-pop-keep", F("query/scoper.go", "(s *baseScoper) PopScope(", '''
func (s *baseScoper) PopScope() error {
	depth := len(s.scopes)
	if depth == 0 {
		return errors.New("Invalid scope removal in empty scoper")
	}

	kept := make(map[QVar]int, len(s.vars))
	for v, level := range s.vars {
		if level < depth {
			kept[v] = level
		}
	}
	s.vars, s.scopes = kept, s.scopes[:depth-1]

	return nil
}
'''))
R("vm-num", F("query/varmanager.go", "(vm *baseVarManager) CNFVar(", '''
func (vm *baseVarManager) CNFVar(v QVar, idx, value int) (num int) {
	key := varRep{v: v, idx: idx, val: value}
	if vm.CNFVarExists(v, idx, value) {
		return vm.vars[key]
	}
	defer func() { vm.vars[key] = num }()
	vm.topv++
	return vm.topv
}
'''))
