C = "cnf/cnf.go"
R("cnf-tobytes-builder", F(C, "(c CNF) ToBytes", '''
func (c CNF) ToBytes() []byte {
	var sb strings.Builder
	sb.WriteString(c.header())
	for _, group := range [][]Clause{c.sClauses, c.cClauses} {
		for _, clause := range group {
			sb.WriteString(clauseToDIMACS(clause))
			sb.WriteByte('\\n')
		}
	}
	return []byte(sb.String())
}

func (c CNF) header() string {
	return fmt.Sprintf("p cnf %d %d\\n", c.tv, len(c.sClauses)+len(c.cClauses))
}
'''), I(C, "strings"))
R("cnf-tobytes-buffer", F(C, "(c CNF) ToBytes", '''
func (c CNF) ToBytes() []byte {
	var buf bytes.Buffer
	fmt.Fprintf(&buf, "p cnf %d %d\\n", c.tv, len(c.sClauses)+len(c.cClauses))
	for i := 0; i < len(c.sClauses); i++ {
		fmt.Fprintln(&buf, clauseToDIMACS(c.sClauses[i]))
	}
	for i := 0; i < len(c.cClauses); i++ {
		fmt.Fprintln(&buf, clauseToDIMACS(c.cClauses[i]))
	}
	return buf.Bytes()
}
'''), I(C, "bytes"))
R("cnf-tobytes-append", F(C, "(c CNF) ToBytes", '''
func (c CNF) ToBytes() []byte {
	out := []byte("p cnf ")
	out = strconv.AppendInt(out, int64(c.tv), 10)
	out = append(out, ' ')
	out = strconv.AppendInt(out, int64(len(c.sClauses)+len(c.cClauses)), 10)
	out = append(out, '\\n')
	for _, cl := range c.sClauses {
		out = appendClause(out, cl)
	}
	for _, cl := range c.cClauses {
		out = appendClause(out, cl)
	}
	return out
}

func appendClause(out []byte, cl Clause) []byte {
	for _, l := range cl {
		out = strconv.AppendInt(out, int64(l), 10)
		out = append(out, ' ')
	}
	return append(out, '0', '\\n')
}
'''))
R("cnf-tofile-bytes", F(C, "(c CNF) ToFile", '''
func (c CNF) ToFile(path string) error {
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	defer f.Close()
	_, err = f.Write(c.ToBytes())
	return err
}
'''))
R("cnf-tofile-writefile", F(C, "(c CNF) ToFile", '''
func (c CNF) ToFile(path string) error {
	return os.WriteFile(path, c.ToBytes(), 0o666)
}
'''))
R("cnf-tofile-helper", F(C, "(c CNF) ToFile", '''
func (c CNF) ToFile(path string) error {
	// Open file
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	defer f.Close()

	header := fmt.Sprintf("p cnf %d %d\\n", c.tv, len(c.sClauses)+len(c.cClauses))
	if _, err = f.WriteString(header); err != nil {
		return err
	}
	if err = writeClauses(f, c.sClauses); err != nil {
		return err
	}
	return writeClauses(f, c.cClauses)
}

// writeClauses writes one line per clause.
func writeClauses(f *os.File, clauses []Clause) error {
	for _, clause := range clauses {
		if _, err := f.WriteString(clauseToDIMACS(clause) + "\\n"); err != nil {
			return err
		}
	}
	return nil
}
'''))
R("cnf-tofile-iowriter", F(C, "(c CNF) ToFile", '''
func (c CNF) ToFile(path string) error {
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	defer f.Close()
	return c.writeTo(f)
}

func (c CNF) writeTo(w io.Writer) error {
	if _, err := fmt.Fprintf(w, "p cnf %d %d\\n", c.tv, len(c.sClauses)+len(c.cClauses)); err != nil {
		return err
	}
	for _, clauses := range [][]Clause{c.sClauses, c.cClauses} {
		for _, clause := range clauses {
			if _, err := fmt.Fprintf(w, "%s\\n", clauseToDIMACS(clause)); err != nil {
				return err
			}
		}
	}
	return nil
}
'''), I(C, "io"))
R("cnf-tofile-bufio", F(C, "(c CNF) ToFile", '''
func (c CNF) ToFile(path string) error {
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	defer f.Close()

	w := bufio.NewWriter(f)
	fmt.Fprintf(w, "p cnf %d %d\\n", c.tv, len(c.sClauses)+len(c.cClauses))
	for _, clause := range c.sClauses {
		fmt.Fprintf(w, "%s\\n", clauseToDIMACS(clause))
	}
	for _, clause := range c.cClauses {
		fmt.Fprintf(w, "%s\\n", clauseToDIMACS(clause))
	}
	return w.Flush()
}
'''), I(C, "bufio"))
R("cnf-tofile-closure", F(C, "(c CNF) ToFile", '''
func (c CNF) ToFile(path string) (err error) {
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	defer f.Close()

	put := func(s string) bool {
		_, err = f.WriteString(s)
		return err == nil
	}
	if !put(fmt.Sprintf("p cnf %d %d\\n", c.tv, len(c.sClauses)+len(c.cClauses))) {
		return err
	}
	for _, clause := range append(c.sClauses[:len(c.sClauses):len(c.sClauses)], c.cClauses...) {
		if !put(clauseToDIMACS(clause) + "\\n") {
			return err
		}
	}
	return nil
}
'''))
R("cnf-clausetodimacs-join", F(C, "clauseToDIMACS", '''
func clauseToDIMACS(clause Clause) string {
	parts := make([]string, 0, len(clause)+1)
	for _, v := range clause {
		parts = append(parts, strconv.Itoa(v))
	}
	parts = append(parts, "0")
	return strings.Join(parts, " ")
}
'''), I(C, "strings"))
R("cnf-clausetodimacs-sprint", F(C, "clauseToDIMACS", '''
func clauseToDIMACS(clause Clause) string {
	cString := ""
	for i := range clause {
		cString = cString + fmt.Sprintf("%d ", clause[i])
	}
	return cString + "0"
}
'''))
R("cnf-clausetodimacs-builder", F(C, "clauseToDIMACS", '''
func clauseToDIMACS(clause Clause) string {
	var sb strings.Builder
	for _, v := range clause {
		fmt.Fprintf(&sb, "%d ", v)
	}
	sb.WriteRune('0')
	return sb.String()
}
'''), I(C, "strings"))
R("cnf-maxvar-builtin", F(C, "maxVar", '''
func maxVar(clauses []Clause) int {
	topv := 0
	for _, cl := range clauses {
		for _, v := range cl {
			topv = max(topv, absInt(v))
		}
	}
	return topv
}
'''), F(C, "maxInt", '''
func maxInt(v1, v2 int) int {
	return max(v1, v2)
}
'''), F(C, "absInt", '''
func absInt(v int) int {
	if v < 0 {
		v = -v
	}
	return v
}
'''))
R("cnf-maxvar-perclause", F(C, "maxVar", '''
func maxVar(clauses []Clause) (topv int) {
	for i := len(clauses) - 1; i >= 0; i-- {
		if m := clauses[i].maxVar(); m > topv {
			topv = m
		}
	}
	return
}

func (cl Clause) maxVar() int {
	m := 0
	for _, v := range cl {
		switch {
		case v > m:
			m = v
		case -v > m:
			m = -v
		}
	}
	return m
}
'''))
R("cnf-maxvar-recursive", F(C, "maxVar", '''
func maxVar(clauses []Clause) int {
	if len(clauses) == 0 {
		return 0
	}
	top := maxVar(clauses[1:])
	for _, v := range clauses[0] {
		top = maxInt(top, absInt(v))
	}
	return top
}
'''))
R("cnf-clone-append", F(C, "(c CNF) AppendSemantics", '''
func (c CNF) AppendSemantics(clauses ...Clause) CNF {
	c.tv = maxInt(c.tv, maxVar(clauses))
	c.sClauses = append(slices.Clone(c.sClauses), clauses...)
	return c
}
'''), F(C, "(c CNF) AppendConsistency", '''
func (c CNF) AppendConsistency(clauses ...Clause) CNF {
	c.tv = maxInt(c.tv, maxVar(clauses))
	c.cClauses = append(slices.Clone(c.cClauses), clauses...)
	return c
}
'''), I(C, "slices"))
R("cnf-concat-helper", F(C, "(c CNF) AppendSemantics", '''
func (c CNF) AppendSemantics(clauses ...Clause) CNF {
	return CNF{
		tv:       maxInt(maxVar(clauses), c.tv),
		sClauses: join(c.sClauses, clauses),
		cClauses: c.cClauses,
	}
}

func join(a, b []Clause) []Clause {
	out := make([]Clause, 0, len(a)+len(b))
	out = append(out, a...)
	out = append(out, b...)
	return out
}
'''), F(C, "(c CNF) AppendConsistency", '''
func (c CNF) AppendConsistency(clauses ...Clause) CNF {
	return CNF{
		tv:       maxInt(maxVar(clauses), c.tv),
		sClauses: c.sClauses,
		cClauses: join(c.cClauses, clauses),
	}
}
'''))
R("cnf-append-copy", F(C, "(c CNF) AppendSemantics", '''
func (c CNF) AppendSemantics(clauses ...Clause) CNF {
	s := make([]Clause, len(c.sClauses)+len(clauses))
	n := copy(s, c.sClauses)
	copy(s[n:], clauses)
	c.sClauses = s
	if top := maxVar(clauses); top > c.tv {
		c.tv = top
	}
	return c
}
'''))
R("cnf-conjunction", F(C, "(c CNF) Conjunction", '''
func (c CNF) Conjunction(oc CNF) CNF {
	return c.AppendSemantics(oc.sClauses...).AppendConsistency(oc.cClauses...)
}
'''))
R("cnf-conjunction-order", F(C, "(c CNF) Conjunction", '''
func (c CNF) Conjunction(oc CNF) CNF {
	withCons := c.AppendConsistency(oc.cClauses...)
	return withCons.AppendSemantics(oc.sClauses...)
}
'''))
R("cnf-conjunction-direct", F(C, "(c CNF) Conjunction", '''
func (c CNF) Conjunction(oc CNF) CNF {
	var r CNF
	r.sClauses = append(append(r.sClauses, c.sClauses...), oc.sClauses...)
	r.cClauses = append(append(r.cClauses, c.cClauses...), oc.cClauses...)
	r.tv = c.tv
	if oc.tv > r.tv {
		r.tv = oc.tv
	}
	return r
}
'''))
R("cnf-trivially", F(C, "(c CNF) TriviallyFalse", '''
func (c CNF) TriviallyFalse() bool {
	return c.hasEmptySemanticClause() || hasEmpty(c.cClauses)
}

func hasEmpty(clauses []Clause) bool {
	for _, cl := range clauses {
		if len(cl) == 0 {
			return true
		}
	}
	return false
}
'''), F(C, "(c CNF) hasEmptySemanticClause", '''
func (c CNF) hasEmptySemanticClause() bool {
	return hasEmpty(c.sClauses)
}
'''), F(C, "(c CNF) TriviallyTrue", '''
func (c CNF) TriviallyTrue() bool {
	return len(c.sClauses)+len(c.cClauses) == 0
}
'''))
R("cnf-trivially-slices", F(C, "(c CNF) TriviallyFalse", '''
func (c CNF) TriviallyFalse() bool {
	empty := func(cl Clause) bool { return len(cl) == 0 }
	return slices.ContainsFunc(c.sClauses, empty) || slices.ContainsFunc(c.cClauses, empty)
}
'''), I(C, "slices"))
R("cnf-negate-inline", F(C, "(c CNF) Negate", '''
func (c CNF) Negate(opt_topv ...int) CNF {
	topv := c.tv
	if len(opt_topv) != 0 && opt_topv[0] > topv {
		topv = opt_topv[0]
	}

	switch {
	case len(c.sClauses) == 0:
		return CNF{tv: topv, sClauses: []Clause{{}}, cClauses: c.cClauses}
	case c.hasEmptySemanticClause():
		return CNF{tv: topv, cClauses: c.cClauses}
	}

	out := CNF{tv: topv, sClauses: c.sClauses, cClauses: c.cClauses}
	out.tseytinNegation(topv)
	return out
}
'''))
R("cnf-negate-variadic", F(C, "(c CNF) Negate", '''
func (c CNF) Negate(opt_topv ...int) CNF {
	topv := c.tv
	for i, v := range opt_topv {
		if i == 0 {
			topv = maxInt(topv, v)
		}
	}
	if len(c.sClauses) == 0 {
		rcnf := c.AppendSemantics(Clause{})
		rcnf.tv = topv
		return rcnf
	}
	if c.hasEmptySemanticClause() {
		return CNF{cClauses: c.cClauses, tv: topv}
	}
	rcnf := c
	rcnf.tv = topv
	rcnf.tseytinNegation(topv)
	return rcnf
}
'''))
R("cnf-tseytin-value", F(C, "(c *CNF) tseytinNegation", '''
func (c *CNF) tseytinNegation(tv int) {
	enclits := make(Clause, 0, len(c.sClauses))
	cons := slices.Clone(c.cClauses)

	for _, clause := range c.sClauses {
		if len(clause) == 1 {
			enclits = append(enclits, -clause[0])
			continue
		}
		tv++
		enclits = append(enclits, tv)
		inv := make(Clause, 0, len(clause)+1)
		for _, lit := range clause {
			cons = append(cons, Clause{-lit, -tv})
			inv = append(inv, lit)
		}
		cons = append(cons, append(inv, tv))
	}

	c.cClauses = cons
	c.tv = tv
	if len(enclits) == 1 {
		c.sClauses = []Clause{enclits}
		return
	}
	c.addNegationIFFClauses(enclits)
}
'''), I(C, "slices"))
R("cnf-tseytin-helper", F(C, "(c *CNF) tseytinNegation", '''
func (c *CNF) tseytinNegation(tv int) {
	var clauses []Clause
	var enclits Clause

	for i := range c.sClauses {
		clause := c.sClauses[i]
		if len(clause) == 0 {
			c.sClauses = nil
			c.tv = tv
			return
		}
		if len(clause) == 1 {
			enclits = append(enclits, -clause[0])
		} else {
			tv = tv + 1
			clauses = append(clauses, negated(clause, tv)...)
			enclits = append(enclits, tv)
		}
	}

	all := make([]Clause, 0, len(c.cClauses)+len(clauses))
	all = append(all, c.cClauses...)
	c.cClauses = append(all, clauses...)
	c.tv = tv

	if len(enclits) == 1 {
		c.sClauses = []Clause{enclits}
	} else {
		c.addNegationIFFClauses(enclits)
	}
}

// negated returns the clauses that make auxv the negation of clause.
func negated(clause Clause, auxv int) []Clause {
	out := make([]Clause, len(clause)+1)
	last := make(Clause, len(clause), len(clause)+1)
	for i, lit := range clause {
		out[i] = Clause{-lit, -auxv}
		last[i] = lit
	}
	out[len(clause)] = append(last, auxv)
	return out
}
'''))
R("cnf-iff", F(C, "(c *CNF) addNegationIFFClauses", '''
func (c *CNF) addNegationIFFClauses(enclits Clause) {
	auxv := c.tv + 1
	long := make(Clause, 0, len(enclits)+1)
	long = append(long, -auxv)
	cl := c.cClauses
	for _, lit := range enclits {
		cl = append(cl, Clause{auxv, -lit})
		long = append(long, lit)
	}
	c.cClauses = append(cl, long)
	c.tv = auxv
	c.sClauses = []Clause{{auxv}}
}
'''.replace("long = append(long, -auxv)\n", "").replace("append(cl, long)", "append(cl, append(long, -auxv))").replace("{auxv, -lit}", "{-lit, auxv}")))
R("cnf-fromclauses", F(C, "FromClauses", '''
func FromClauses(clauses []Clause) CNF {
	return CNF{tv: maxVar(clauses), sClauses: clauses}
}
'''))
R("cnf-accessors", F(C, "(c CNF) Clauses", '''
func (c CNF) Clauses() (semantic []Clause, consistency []Clause) {
	semantic, consistency = c.sClauses, c.cClauses
	return
}
'''), F(C, "(c CNF) TopV", '''
func (c CNF) TopV() int {
	top := c.tv
	return top
}
'''))
R("cnf-rename-helpers", (C, lambda s: re.sub(r"\bmaxVar\b", "largestVar", re.sub(r"\babsInt\b", "abs", re.sub(r"\btseytinNegation\b", "negateInPlace", s)))))
R("cnf-tseytin-make-index", F(C, "(c *CNF) addNegationIFFClauses", '''
func (c *CNF) addNegationIFFClauses(enclits Clause) {
	n := len(c.cClauses)
	out := make([]Clause, n+len(enclits)+1)
	copy(out, c.cClauses)
	c.tv++
	for i, lit := range enclits {
		out[n+i] = Clause{-lit, c.tv}
	}
	last := make(Clause, len(enclits)+1)
	copy(last, enclits)
	last[len(enclits)] = -c.tv
	out[len(out)-1] = last
	c.cClauses = out
	c.sClauses = []Clause{{c.tv}}
}
'''))
R("cnf-tseytin-closure", F(C, "(c *CNF) tseytinNegation", '''
func (c *CNF) tseytinNegation(tv int) {
	clauses := c.cClauses[:len(c.cClauses):len(c.cClauses)]
	lits := Clause{}

	next := func() int {
		tv++
		return tv
	}
	add := func(lits ...int) {
		clauses = append(clauses, Clause(lits))
	}

	for _, clause := range c.sClauses {
		switch len(clause) {
		case 0:
			c.sClauses, c.tv = nil, tv
			return
		case 1:
			lits = append(lits, -clause[0])
		default:
			aux := next()
			for _, lit := range clause {
				add(-lit, -aux)
			}
			add(append(slices.Clone(clause), aux)...)
			lits = append(lits, aux)
		}
	}

	c.cClauses, c.tv = clauses, tv
	if len(lits) == 1 {
		c.sClauses = []Clause{lits}
		return
	}
	c.addNegationIFFClauses(lits)
}
'''), I(C, "slices"))
R("cnf-generic-helper", F(C, "(c CNF) AppendSemantics", '''
func (c CNF) AppendSemantics(clauses ...Clause) CNF {
	c.tv = maxInt(c.tv, maxVar(clauses))
	c.sClauses = concat(c.sClauses, clauses)
	return c
}

// concat joins slices into new storage.
func concat[T any](parts ...[]T) []T {
	var out []T
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}
'''), F(C, "(c CNF) AppendConsistency", '''
func (c CNF) AppendConsistency(clauses ...Clause) CNF {
	c.tv = maxInt(c.tv, maxVar(clauses))
	c.cClauses = concat(c.cClauses, clauses)
	return c
}
'''), F(C, "(c CNF) TriviallyFalse", '''
func (c CNF) TriviallyFalse() bool {
	return anyOf(concat(c.sClauses, c.cClauses), func(cl Clause) bool { return len(cl) == 0 })
}

func anyOf[S ~[]E, E any](s S, f func(E) bool) bool {
	for i := range s {
		if f(s[i]) {
			return true
		}
	}
	return false
}
'''))
