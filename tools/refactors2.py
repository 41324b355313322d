S = "query/scoper.go"; V = "query/varmanager.go"; Q = "query/instances.go"; X = "query/context.go"; M = "query/model.go"
R("sc-scopevar-local-builder", F(S, "(s *baseScoper) ScopeVar", '''
func (s *baseScoper) ScopeVar(v QVar) QVar {
	var sb strings.Builder
	sb.WriteString(string(v))
	for _, sc := range s.scopes[:s.vars[v]] {
		sb.WriteByte(31)
		sb.WriteString(sc.target)
		sb.WriteByte(31)
		sb.WriteString(strconv.Itoa(sc.vIdx))
	}
	return QVar(sb.String())
}
'''))
R("sc-scopevar-sprintf", F(S, "(s *baseScoper) ScopeVar", '''
func (s *baseScoper) ScopeVar(v QVar) QVar {
	level, ok := s.vars[v]
	if !ok {
		return v
	}
	for i := 0; i < level; i++ {
		v += QVar(fmt.Sprintf("\\x1f%s\\x1f%d", s.scopes[i].target, s.scopes[i].vIdx))
	}
	return v
}
'''), I(S, "fmt"))
R("sc-scopevar-join", F(S, "(s *baseScoper) ScopeVar", '''
func (s *baseScoper) ScopeVar(v QVar) QVar {
	parts := []string{string(v)}
	for i, n := 0, s.vars[v]; i < n; i++ {
		parts = append(parts, s.scopes[i].target, strconv.Itoa(s.scopes[i].vIdx))
	}
	return QVar(strings.Join(parts, "\\x1f"))
}
'''))
R("sc-suffix-helper", F(S, "(s *baseScoper) ScopeVar", '''
func (s *baseScoper) ScopeVar(v QVar) QVar {
	name := string(v)
	for _, sc := range s.enclosing(v) {
		name += sc.suffix()
	}
	return QVar(name)
}

// enclosing scopes of v when it was added.
func (s *baseScoper) enclosing(v QVar) []scope {
	n := s.vars[v]
	if n > len(s.scopes) {
		n = len(s.scopes)
	}
	return s.scopes[:n]
}

const unitSep = string(rune(31))

func (s scope) suffix() string {
	return unitSep + s.target + unitSep + strconv.Itoa(s.vIdx)
}
'''))
R("sc-popscope-copy", F(S, "(s *baseScoper) PopScope", '''
func (s *baseScoper) PopScope() error {
	level := len(s.scopes)
	if level == 0 {
		return errors.New("Invalid scope removal in empty scoper")
	}
	kept := make(map[QVar]int, len(s.vars))
	for v, l := range s.vars {
		if l < level {
			kept[v] = l
		}
	}
	s.vars = kept
	s.scopes[level-1] = scope{}
	s.scopes = s.scopes[:level-1]
	return nil
}
'''))
R("sc-popscope-collect", F(S, "(s *baseScoper) PopScope", '''
func (s *baseScoper) PopScope() error {
	n := len(s.scopes)
	if n < 1 {
		return errors.New("Invalid scope removal in empty scoper")
	}
	var gone []QVar
	for v := range s.vars {
		if s.vars[v] >= n {
			gone = append(gone, v)
		}
	}
	for _, v := range gone {
		delete(s.vars, v)
	}
	s.scopes = append([]scope(nil), s.scopes[:n-1]...)
	return nil
}
'''))
R("sc-setscope-copy", F(S, "(s *baseScoper) SetScope", '''
func (s *baseScoper) SetScope(vIdx int, val []FeatV) error {
	if len(s.scopes) == 0 {
		return errors.New("Invalid setting of scope in empty scoper")
	}
	top := &s.scopes[len(s.scopes)-1]
	top.vIdx, top.value = vIdx, append([]FeatV(nil), val...)
	return nil
}
'''))
R("sc-setscope-whole", F(S, "(s *baseScoper) SetScope", '''
func (s *baseScoper) SetScope(vIdx int, val []FeatV) error {
	last := len(s.scopes) - 1
	if last < 0 {
		return errors.New("Invalid setting of scope in empty scoper")
	}
	cp := make([]FeatV, len(val))
	copy(cp, val)
	s.scopes[last] = scope{target: s.scopes[last].target, value: cp, vIdx: vIdx}
	return nil
}
'''))
R("sc-scopeconst-flag", F(S, "(s *baseScoper) ScopeConst", '''
func (s *baseScoper) ScopeConst(c QConst) (res QConst, found bool) {
	res = c
	for i := 0; i < len(s.scopes); i++ {
		if s.scopes[i].target != c.ID {
			continue
		}
		res.Val = s.scopes[i].value
		found = true
	}
	return
}
'''))
R("sc-scopes-pointers",
  E(S, "scopes  []scope ", "scopes  []*scope "),
  E(S, "s.scopes = append(s.scopes, scope{target: tgt})", "s.scopes = append(s.scopes, &scope{target: tgt})"))
R("sc-addvar-flip", F(S, "(s *baseScoper) AddVar", '''
func (s *baseScoper) AddVar(v QVar) {
	if level := len(s.scopes); level > 0 {
		if _, known := s.vars[v]; !known {
			s.vars[v] = level
		}
	}
}
'''))
R("sc-reset-clear", F(S, "(s *baseScoper) Reset", '''
func (s *baseScoper) Reset() {
	s.builder.Reset()
	s.scopes = s.scopes[:0]
	for v := range s.vars {
		delete(s.vars, v)
	}
}
'''))
R("sc-reset-struct", F(S, "(s *baseScoper) Reset", '''
func (s *baseScoper) Reset() {
	*s = baseScoper{vars: map[QVar]int{}}
}
'''))
R("vm-nested", F(V, "(vm *baseVarManager) CNFVar(", '''
func (vm *baseVarManager) CNFVar(v QVar, idx, value int) int {
	vals, ok := vm.vars[v]
	if !ok {
		vals = make(map[[2]int]int)
		vm.vars[v] = vals
	}
	key := [2]int{idx, value}
	n, ok := vals[key]
	if !ok {
		vm.topv++
		n = vm.topv
		vals[key] = n
	}
	return n
}
'''), F(V, "(vm *baseVarManager) CNFVarExists", '''
func (vm *baseVarManager) CNFVarExists(v QVar, idx, value int) bool {
	_, ok := vm.vars[v][[2]int{idx, value}]
	return ok
}
'''), E(V, "map[varRep]int", "map[QVar]map[[2]int]int"), E(X, "map[varRep]int", "map[QVar]map[[2]int]int"))
R("vm-next-helper", F(V, "(vm *baseVarManager) CNFVar(", '''
func (vm *baseVarManager) CNFVar(v QVar, idx, value int) int {
	key := varRep{v: v, idx: idx, val: value}
	if !vm.known(key) {
		vm.vars[key] = vm.next()
	}
	return vm.vars[key]
}

func (vm *baseVarManager) known(key varRep) bool {
	_, ok := vm.vars[key]
	return ok
}

func (vm *baseVarManager) next() int {
	vm.topv++
	return vm.topv
}
'''), F(V, "(vm *baseVarManager) CNFVarExists", '''
func (vm *baseVarManager) CNFVarExists(v QVar, idx, value int) bool {
	return vm.known(varRep{v, idx, value})
}
'''))
R("vm-zero-missing", F(V, "(vm *baseVarManager) CNFVar(", '''
func (vm *baseVarManager) CNFVar(v QVar, idx, value int) int {
	vr := varRep{v, idx, value}
	if vm.vars[vr] == 0 {
		vm.topv += 1
		vm.vars[vr] = vm.topv
	}
	return vm.vars[vr]
}
'''))
R("vm-update-flip", F(V, "(vm *baseVarManager) UpdateTopV", '''
func (vm *baseVarManager) UpdateTopV(v int) (ok bool) {
	if ok = v >= vm.topv; ok {
		vm.topv = v
	}
	return
}
'''))
R("vm-reset-struct", F(V, "(vm *baseVarManager) Reset", '''
func (vm *baseVarManager) Reset() {
	*vm = newVarManager()
}

func newVarManager() baseVarManager {
	return baseVarManager{vars: map[varRep]int{}}
}
'''), E(X, "baseVarManager{vars: make(map[varRep]int)}", "newVarManager()"))
R("ctx-pointers", E(X, "	baseScoper\n	baseVarManager\n", "	*baseScoper\n	*baseVarManager\n"),
  E(X, "baseScoper{vars", "&baseScoper{vars"), E(X, "baseVarManager{vars", "&baseVarManager{vars"))
R("ctx-reset-guard", F(X, "(qc *baseQContext) Reset", '''
func (qc *baseQContext) Reset() {
	if qc != nil {
		qc.baseVarManager.Reset()
		qc.baseScoper.Reset()
	}
}
'''))
R("ctx-lazy-maps", F(V, "(vm *baseVarManager) CNFVar(", '''
func (vm *baseVarManager) CNFVar(v QVar, idx, value int) int {
	vr := varRep{v, idx, value}
	if val, ok := vm.vars[vr]; ok {
		return val
	}
	if vm.vars == nil {
		vm.vars = map[varRep]int{}
	}
	vm.topv += 1
	vm.vars[vr] = vm.topv
	return vm.topv
}
'''), F(V, "(vm *baseVarManager) Reset", '''
func (vm *baseVarManager) Reset() {
	vm.topv, vm.vars = 0, nil
}
'''), E(X, "		baseVarManager: baseVarManager{vars: make(map[varRep]int)},\n", ""))
R("inst-count-helper", F(Q, "(c QConst) IsFull", '''
func (c QConst) IsFull() bool {
	return c.BotCount() == 0
}
'''), F(Q, "(c QConst) BotCount", '''
func (c QConst) BotCount() (n int) {
	for i := len(c.Val) - 1; i >= 0; i-- {
		if c.Val[i] != BOT {
			continue
		}
		n++
	}
	return n
}
'''))
R("inst-contains", F(Q, "(c QConst) IsFull", '''
func (c QConst) IsFull() bool {
	return !slices.Contains(c.Val, BOT)
}
'''), F(Q, "(c QConst) EqualValue", '''
func (c QConst) EqualValue(t QConst) bool {
	return slices.Equal(c.Val, t.Val)
}
'''), I(Q, "slices"))
R("inst-asstring-table", F(Q, "(c QConst) AsString", '''
func (c QConst) AsString() string {
	const symbols = "_01"
	out := make([]byte, 0, len(c.Val))
	for _, ft := range c.Val {
		if ft < BOT || ft > ONE {
			continue
		}
		out = append(out, symbols[ft])
	}
	return string(out)
}
'''))
R("inst-asstring-map", F(Q, "(c QConst) AsString", '''
var featNames = map[FeatV]string{BOT: "_", ZERO: "0", ONE: "1"}

func (c QConst) AsString() (s string) {
	for _, ft := range c.Val {
		s += featNames[ft]
	}
	return s
}
'''))
R("inst-validate-err", F(Q, "ValidateConstsDim", '''
func ValidateConstsDim(d int, consts ...QConst) error {
	for i := range consts {
		if n := len(consts[i].Val); n != d {
			return wrongDim(i+1, n, d)
		}
	}
	return nil
}

func wrongDim(pos, got, want int) error {
	return errors.New("constant" + strconv.Itoa(pos) + ": wrong dim " + strconv.Itoa(got) + " (" + strconv.Itoa(want) + " feats in context)")
}
'''), I(Q, "errors", "strconv"))
R("inst-allbot", F(Q, "AllBotConst", '''
func AllBotConst(dim int) QConst {
	var c QConst
	c.Val = make([]FeatV, dim)
	for i := range c.Val {
		c.Val[i] = BOT
	}
	return c
}
'''))
R("inst-allbot-append", F(Q, "AllBotConst", '''
func AllBotConst(dim int) QConst {
	vals := []FeatV{}
	for len(vals) < dim {
		vals = append(vals, BOT)
	}
	return QConst{"", vals}
}
'''))
R("model-isleaf", F(M, "(n Node) IsLeaf", '''
func (n Node) IsLeaf() bool {
	internal := n.ZChild >= 0 && n.OChild >= 0
	return !internal
}
'''))
LA = "query/logop/and.go"; LO = "query/logop/or.go"; LN = "query/logop/not.go"; LW = "query/logop/with_var.go"; LF = "query/logop/forallguarded.go"
R("and-inline", F(LA, "(a And) Encoding", '''
func (a And) Encoding(ctx query.QContext) (cnf.CNF, error) {
	switch {
	case a.Q1 == nil:
		return cnf.CNF{}, errors.New("And: Invalid encoding of nil child (1)")
	case a.Q2 == nil:
		return cnf.CNF{}, errors.New("And: Invalid encoding of nil child (2)")
	case ctx == nil:
		return cnf.CNF{}, errors.New("And: Invalid encoding with nil ctx")
	}
	out, err := a.buildEncoding(ctx)
	if err != nil {
		return out, fmt.Errorf("And: %w", err)
	}
	return out, nil
}
'''))
R("and-loop", F(LA, "(a And) buildEncoding", '''
func (a And) buildEncoding(ctx query.QContext) (cnf.CNF, error) {
	var all cnf.CNF
	for i, q := range [...]LogOpQ{a.Q1, a.Q2} {
		c, err := q.Encoding(ctx)
		if err != nil {
			return cnf.CNF{}, fmt.Errorf("Q%d: %w", i+1, err)
		}
		all = all.Conjunction(c)
	}
	return all, nil
}
'''))
R("and-shared", F(LA, "(a And) buildEncoding", '''
func (a And) buildEncoding(ctx query.QContext) (cnf.CNF, error) {
	cnf1, cnf2, err := encodePair(ctx, a.Q1, a.Q2)
	if err != nil {
		return cnf.CNF{}, err
	}
	return cnf1.Conjunction(cnf2), nil
}

func encodePair(ctx query.QContext, q1, q2 LogOpQ) (c1, c2 cnf.CNF, err error) {
	if c1, err = q1.Encoding(ctx); err != nil {
		return c1, c2, fmt.Errorf("Q1: %w", err)
	}
	if c2, err = q2.Encoding(ctx); err != nil {
		return c1, c2, fmt.Errorf("Q2: %w", err)
	}
	return c1, c2, nil
}
'''))
R("with-loop", F(LW, "(w WithVar) Encoding", open("/repo/query/logop/with_var.go").read().split("func (w WithVar) Encoding")[1].split("\n}\n")[0].join(["func (w WithVar) Encoding", "\n\t_ = ncnf\n}"]) if False else "func (w WithVar) Encoding" + open("/repo/query/logop/with_var.go").read().split("func (w WithVar) Encoding")[1].split("\n}\n")[0] + "\n}\n"))
FAG_BODY = '''
func (f ForAllGuarded) buildEncoding(
	ctx query.QContext,
) (ncnf cnf.CNF, err error) {
	ctx.AddScope(f.I.ID)
	defer func() {
		if perr := ctx.PopScope(); perr != nil {
			err = errors.Join(err, perr)
		}
	}()
%s
}
'''
NEWITER = '''
'''
R("fag-recursive", F(LF, "(f ForAllGuarded) buildEncoding", FAG_BODY % '''	_, it, err := newNodeAsValuesIter(ctx.Dim(), ctx.Nodes())
	if err != nil {
		return cnf.CNF{}, err
	}
	i := 0
	err = it.each(0, func(val []query.FeatV) error {
		if err := ctx.SetScope(i, val); err != nil {
			return err
		}
		c, err := f.Q.Encoding(ctx)
		if err != nil {
			return err
		}
		ncnf = ncnf.Conjunction(c)
		i++
		return nil
	})
	if err != nil {
		return cnf.CNF{}, err
	}
	return ncnf, nil'''), F(LF, "(i *nodeAsValuesIter) Next", '''
func (i *nodeAsValuesIter) each(n int, f func([]query.FeatV) error) error {
	if i.walk[n].visited {
		return nil
	}
	i.walk[n].visited = true
	if err := f(*i.t); err != nil {
		return err
	}
	nd := i.nodes[n]
	if nd.IsLeaf() {
		return nil
	}
	(*i.t)[nd.Feat] = query.ZERO
	if err := i.each(nd.ZChild, f); err != nil {
		return err
	}
	(*i.t)[nd.Feat] = query.ONE
	if err := i.each(nd.OChild, f); err != nil {
		return err
	}
	(*i.t)[nd.Feat] = query.BOT
	return nil
}
'''))
R("fag-collect", F(LF, "(f ForAllGuarded) buildEncoding", FAG_BODY % '''	vals, err := nodeValues(ctx.Dim(), ctx.Nodes())
	if err != nil {
		return ncnf, err
	}
	for i, val := range vals {
		if err = ctx.SetScope(i, val); err != nil {
			return cnf.CNF{}, err
		}
		icnf, err := f.Q.Encoding(ctx)
		if err != nil {
			return cnf.CNF{}, err
		}
		ncnf = ncnf.Conjunction(icnf)
	}
	return ncnf, nil'''), A(LF, '''
// nodeValues collects the partial instance of every node.
func nodeValues(dim int, nodes []query.Node) ([][]query.FeatV, error) {
	cv, iter, err := newNodeAsValuesIter(dim, nodes)
	if err != nil {
		return nil, err
	}
	var out [][]query.FeatV
	for iter.Next() {
		val := make([]query.FeatV, dim)
		copy(val, *cv)
		out = append(out, val)
	}
	return out, nil
}
'''))
R("fag-next-switch", F(LF, "(i *nodeAsValuesIter) Next", '''
func (i *nodeAsValuesIter) Next() bool {
	for i.walk[i.cp].visited {
		node := i.nodes[i.cp]
		switch {
		case !node.IsLeaf() && !i.walk[node.ZChild].visited:
			i.enter(node.Feat, query.ZERO, node.ZChild)
		case !node.IsLeaf() && !i.walk[node.OChild].visited:
			i.enter(node.Feat, query.ONE, node.OChild)
		case i.cp == 0:
			return false
		default:
			i.cp = i.walk[i.cp].prev
			(*i.t)[i.nodes[i.cp].Feat] = query.BOT
		}
	}
	i.walk[i.cp].visited = true
	return true
}

func (i *nodeAsValuesIter) enter(feat int, val query.FeatV, child int) {
	(*i.t)[feat] = val
	i.walk[child].prev = i.cp
	i.cp = child
}
'''))
R("fag-ptr-iter", E(LF, "	t     *[]query.FeatV", "	t     []query.FeatV"), E(LF, "(*i.t)[", "i.t["), E(LF, "iter.t = &t", "iter.t = t"))
R("fag-noniter", F(LF, "(f ForAllGuarded) Encoding", '''
func (f ForAllGuarded) Encoding(ctx query.QContext) (cnf.CNF, error) {
	fail := func(err error) (cnf.CNF, error) {
		return cnf.CNF{}, fmt.Errorf("ForAllGuarded: %w", err)
	}
	if f.Q == nil {
		return fail(errors.New("Invalid encoding of nil child"))
	}
	if ctx == nil {
		return fail(errors.New("Invalid encoding with nil ctx"))
	}
	out, err := f.buildEncoding(ctx)
	if err != nil {
		return fail(err)
	}
	return out, nil
}
'''))
R("fag-copyscope", E(LF, "ctx.SetScope(i, *cv)", "ctx.SetScope(i, append([]query.FeatV{}, *cv...))"))
R("fag-stack", F(LF, "(f ForAllGuarded) buildEncoding", FAG_BODY % '''	type frame struct {
		node int
		val  []query.FeatV
	}
	dim, nodes := ctx.Dim(), ctx.Nodes()
	if _, _, err := newNodeAsValuesIter(dim, nodes); err != nil {
		return ncnf, err
	}
	seen := map[int]bool{0: true}
	stack := []frame{{0, make([]query.FeatV, dim)}}
	for i := 0; len(stack) > 0; i++ {
		top := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if err = ctx.SetScope(i, top.val); err != nil {
			return cnf.CNF{}, err
		}
		icnf, err := f.Q.Encoding(ctx)
		if err != nil {
			return cnf.CNF{}, err
		}
		ncnf = ncnf.Conjunction(icnf)
		n := nodes[top.node]
		if n.IsLeaf() {
			continue
		}
		for _, ch := range []struct {
			node int
			val  query.FeatV
		}{{n.OChild, query.ONE}, {n.ZChild, query.ZERO}} {
			if seen[ch.node] {
				continue
			}
			seen[ch.node] = true
			val := append([]query.FeatV{}, top.val...)
			val[n.Feat] = ch.val
			stack = append(stack, frame{ch.node, val})
		}
	}
	return ncnf, nil'''))
CS = "compute/solver.go"; CO = "compute/optimum.go"; CB = "compute/boolcomb.go"
R("cs-runsolver-as", F(CS, "runSolver", '''
func runSolver(cmd *exec.Cmd) (int, []byte, error) {
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	stdout, err := cmd.Output()
	if err == nil {
		return 0, nil, errors.New("Solver exit code could not be recovered")
	}
	var exitErr *exec.ExitError
	if !errors.As(err, &exitErr) {
		return 0, nil, err
	}
	switch code := exitErr.ExitCode(); code {
	case 10, 20:
		return code, stdout, nil
	default:
		return code, nil, errors.New(stderr.String())
	}
}
'''))
R("cs-values-scanner", F(CS, "varValueFromBytes", '''
func varValueFromBytes(
	out []byte,
	v query.QVar,
	ctx query.QContext,
) (query.QConst, error) {
	truth := make(map[int]bool)
	sc := bufio.NewScanner(bytes.NewReader(out))
	sc.Buffer(nil, len(out)+1)
	for sc.Scan() {
		line := sc.Text()
		if !strings.HasPrefix(line, "v") {
			continue
		}
		for _, f := range strings.Fields(line[1:]) {
			n, err := strconv.Atoi(f)
			if err != nil {
				return query.QConst{}, err
			}
			truth[iAbs(n)] = n > 0
		}
	}
	if err := sc.Err(); err != nil {
		return query.QConst{}, err
	}
	vals := make([]query.FeatV, ctx.Dim())
	for i := range vals {
		val, ok := featValue(truth, v, i, ctx)
		if !ok {
			return query.QConst{}, fmt.Errorf("Solver output has no value for feature %d of variable '%s'", i, v)
		}
		vals[i] = val
	}
	return query.QConst{Val: vals}, nil
}

func featValue(truth map[int]bool, v query.QVar, i int, ctx query.QContext) (query.FeatV, bool) {
	for _, val := range []query.FeatV{query.BOT, query.ONE, query.ZERO} {
		if truth[ctx.CNFVar(v, i, int(val))] {
			return val, true
		}
	}
	return 0, false
}
'''), F(CS, "variableFilter", "\n"), I(CS, "bufio", "strings"))
R("cs-values-cut", F(CS, "varValueFromBytes", '''
func varValueFromBytes(
	out []byte,
	v query.QVar,
	ctx query.QContext,
) (c query.QConst, err error) {
	filter := variableFilter(v, ctx)
	positive := map[int]struct{}{}
	rest := out
	for len(rest) > 0 {
		var line []byte
		line, rest, _ = bytes.Cut(rest, []byte{'\\n'})
		if !bytes.HasPrefix(line, []byte("v")) {
			continue
		}
		for _, tok := range strings.Fields(string(line[1:])) {
			lit, err := strconv.Atoi(tok)
			if err != nil {
				return query.QConst{}, err
			}
			if lit > 0 && filter[lit] {
				positive[lit] = struct{}{}
			}
		}
	}
	is := func(i int, val query.FeatV) bool {
		_, ok := positive[ctx.CNFVar(v, i, int(val))]
		return ok
	}
	for i := 0; i < ctx.Dim(); i++ {
		switch {
		case is(i, query.BOT):
			c.Val = append(c.Val, query.BOT)
		case is(i, query.ONE):
			c.Val = append(c.Val, query.ONE)
		case is(i, query.ZERO):
			c.Val = append(c.Val, query.ZERO)
		default:
			return query.QConst{}, fmt.Errorf("Solver output has no value for feature %d of variable '%s'", i, v)
		}
	}
	return c, nil
}
'''), I(CS, "strings"))
R("cs-values-parse-once", F(CS, "(s *binSolver) Values", '''
func (s *binSolver) Values(
	vars []query.QVar,
	ctx query.QContext,
) ([]query.QConst, error) {
	var out []query.QConst
	for _, v := range vars {
		c, err := varValueFromBytes(s.output, v, ctx)
		if err != nil {
			return nil, fmt.Errorf("%s: %w", v, err)
		}
		out = append(out, c)
	}
	return out, nil
}
'''))
R("cs-filter-nested", F(CS, "variableFilter", '''
func variableFilter(v query.QVar, ctx query.QContext) map[int]bool {
	f := make(map[int]bool, 3*ctx.Dim())
	for i := ctx.Dim() - 1; i >= 0; i-- {
		for val := query.BOT; val <= query.ONE; val++ {
			f[ctx.CNFVar(v, i, int(val))] = true
		}
	}
	return f
}
'''))
R("cs-step-split", F(CS, "(s *binSolver) Step", '''
func (s *binSolver) Step(q Encodable, ctx query.QContext) error {
	formula, err := q.Encoding(ctx)
	if err != nil {
		return err
	}
	path, err := tempFormula(formula)
	if err != nil {
		return err
	}
	defer os.Remove(path)

	code, out, err := runSolver(exec.Command(s.solverPath, path))
	switch {
	case err != nil:
		return err
	case code == 20:
		return UnsatError
	}
	s.output = out
	return nil
}

// tempFormula writes formula to a temporary file.
func tempFormula(formula cnf.CNF) (string, error) {
	f, err := os.CreateTemp("", "tmp.cnf")
	if err != nil {
		return "", err
	}
	name := f.Name()
	f.Close()
	if err := formula.ToFile(name); err != nil {
		os.Remove(name)
		return "", err
	}
	return name, nil
}
'''))
R("cs-step-cmd", F(CS, "(s *binSolver) Step", '''
func (s *binSolver) Step(q Encodable, ctx query.QContext) (err error) {
	var tmp *os.File
	if tmp, err = os.CreateTemp("", "tmp.cnf"); err != nil {
		return err
	}
	name := tmp.Name()
	defer os.Remove(name)
	defer tmp.Close()

	f, err := q.Encoding(ctx)
	if err == nil {
		err = f.ToFile(name)
	}
	if err != nil {
		return err
	}

	cmd := exec.Command(s.solverPath, name)
	code, output, err := runSolver(cmd)
	if err == nil && code == 20 {
		err = UnsatError
	}
	if err == nil {
		s.output = output
	}
	return err
}
'''))
R("cs-stepinto-buffer", F(CS, "(s *binSolver) Step", '''
func (s *binSolver) Step(q Encodable, ctx query.QContext) error {
	encFile, err := os.CreateTemp("", "tmp.cnf")
	if err != nil {
		return err
	}
	defer os.Remove(encFile.Name())
	formula, err := q.Encoding(ctx)
	if err != nil {
		encFile.Close()
		return err
	}
	if _, err := encFile.Write(formula.ToBytes()); err != nil {
		encFile.Close()
		return err
	}
	if err := encFile.Close(); err != nil {
		return err
	}
	code, output, err := runSolver(exec.Command(s.solverPath, encFile.Name()))
	if err != nil {
		return err
	}
	if code == 20 {
		return UnsatError
	}
	s.output = output
	return nil
}
'''))
R("cs-binsolver", F(CS, "BinSolver", '''
func BinSolver(solverPath string) (Solver, error) {
	_, err := os.Stat(solverPath)
	if err != nil {
		return nil, fmt.Errorf("solver: %w", err)
	}
	s := new(binSolver)
	s.solverPath = solverPath
	return s, nil
}
'''))
R("co-notmp", F(CO, "ComputeOptim", '''
func ComputeOptim(
	fg SVFormula,
	og VCOrder,
	v query.QVar,
	ctx query.QContext,
	solver Solver,
) (OptOutput, error) {
	var (
		best query.QConst
		next Encodable = logop.WithVar{I: v, Q: fg(v)}
	)
	for calls := 1; ; calls++ {
		if ctx != nil {
			ctx.Reset()
		}
		switch err := solver.Step(next, ctx); {
		case errors.Is(err, UnsatError):
			return OptOutput{Found: calls > 1, Value: best, Calls: calls}, nil
		case err != nil:
			return OptOutput{}, err
		}
		vals, err := solver.Values([]query.QVar{v}, ctx)
		if err != nil {
			return OptOutput{}, err
		}
		best = vals[0]
		next = logop.WithVar{I: v, Q: logop.And{Q1: fg(v), Q2: og(v, best)}}
	}
}
'''))
R("co-helper", F(CO, "ComputeOptim", '''
func ComputeOptim(
	fg SVFormula,
	og VCOrder,
	v query.QVar,
	ctx query.QContext,
	solver Solver,
) (OptOutput, error) {
	res := OptOutput{}
	found, val, err := solveFor(logop.WithVar{I: v, Q: fg(v)}, v, ctx, solver)
	if err != nil {
		return OptOutput{}, err
	}
	res.Calls = 1
	for found {
		res.Found, res.Value = true, val
		found, val, err = solveFor(better(fg, og, v, res.Value), v, ctx, solver)
		if err != nil {
			return OptOutput{}, err
		}
		res.Calls++
	}
	return res, nil
}

func better(fg SVFormula, og VCOrder, v query.QVar, c query.QConst) Encodable {
	return logop.WithVar{I: v, Q: logop.And{Q1: fg(v), Q2: og(v, c)}}
}

// solveFor returns the value of v in a valuation of q, if there is one.
func solveFor(q Encodable, v query.QVar, ctx query.QContext, solver Solver) (bool, query.QConst, error) {
	if ctx != nil {
		ctx.Reset()
	}
	err := solver.Step(q, ctx)
	if errors.Is(err, UnsatError) {
		return false, query.QConst{}, nil
	}
	if err != nil {
		return false, query.QConst{}, err
	}
	vals, err := solver.Values([]query.QVar{v}, ctx)
	if err != nil {
		return false, query.QConst{}, err
	}
	return true, vals[0], nil
}
'''))
R("cb-until", F(CB, "(ac AndCombinator) Sat", '''
func (ac AndCombinator) Sat(ctx query.QContext, solver Solver) (bool, error) {
	return satUntil(ac, false, ctx, solver)
}

// satUntil evaluates elems up to the first one with answer stop.
func satUntil(elems []QDTFCombinator, stop bool, ctx query.QContext, solver Solver) (bool, error) {
	for i := range elems {
		sat, err := elems[i].Sat(ctx, solver)
		if err != nil {
			return false, err
		}
		if sat == stop {
			return stop, nil
		}
	}
	return !stop, nil
}
'''), F(CB, "(oc OrCombinator) Sat", '''
func (oc OrCombinator) Sat(ctx query.QContext, solver Solver) (bool, error) {
	return satUntil(oc, true, ctx, solver)
}
'''))
R("cb-recursive", F(CB, "(oc OrCombinator) Sat", '''
func (oc OrCombinator) Sat(ctx query.QContext, solver Solver) (bool, error) {
	if len(oc) == 0 {
		return false, nil
	}
	if sat, err := oc[0].Sat(ctx, solver); sat || err != nil {
		return sat && err == nil, err
	}
	return oc[1:].Sat(ctx, solver)
}
'''))
R("cb-atom", F(CB, "(a QDTFAtom) Sat", '''
func (a QDTFAtom) Sat(ctx query.QContext, solver Solver) (bool, error) {
	if ctx != nil {
		ctx.Reset()
	}
	sat := true
	if err := solver.Step(a.Query, ctx); errors.Is(err, UnsatError) {
		sat = false
	} else if err != nil {
		return false, err
	}
	return sat != a.Negated, nil
}
'''))
