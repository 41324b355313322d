package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
)

// Summary is the effect summary of one function: its guarded effects in
// program order, its results, and its final state as terms over the inputs.
type Summary struct {
	fn     *types.Func
	name   string
	pos    string
	in     *Interp
	items  []*Item
	res    []*T
	und    []Note
	params []string
	state  []stateLeaf // for methods over a state object
	nItems int
}

type stateLeaf struct {
	path string
	out  *T
	init *T
}

// Analyzer owns the program and the summaries extracted from it.
type Analyzer struct {
	reports map[string]*Report // made so far
	prog    *Program
	cnf     *cnfShape
	mu      sync.Mutex
	sums    map[string]*Summary
	ctxT    types.Type // concrete context struct type
	stats   struct{ summaries, items, terms, evals int64 }
	ctxS    *CtxSums

	reuseOnce sync.Once
	reuseRes  []reuseFind

	endless sync.Map // names of summaries found not to terminate
}

func NewAnalyzer(p *Program) (*Analyzer, error) {
	sh, err := shapeCNF(p)
	if err != nil {
		return nil, err
	}
	return &Analyzer{prog: p, cnf: sh, sums: map[string]*Summary{}}, nil
}

func (a *Analyzer) newInterp() *Interp {
	in := NewInterp(a.prog)
	in.pipes, in.started = map[int]*T{}, map[int]*Item{}
	in.cnf = a.cnf
	in.inlineCNF = true
	in.dbg = os.Getenv("GX") != ""
	return in
}

func countItems(its []*Item) int {
	n := 0
	for _, it := range its {
		n += 1 + countItems(it.sub)
	}
	return n
}

// Summarise analyses fn on symbolic inputs: the receiver is Sym("recv"), the
// i-th parameter Sym("a<i>"), except contexts, which are Sym("ctx").
func (a *Analyzer) Summarise(fn *types.Func) *Summary {
	return a.summarise(fn, "", nil)
}

func (a *Analyzer) summarise(fn *types.Func, variant string, setup func(in *Interp)) *Summary {
	a.mu.Lock()
	defer a.mu.Unlock()
	key := fullName(fn) + variant
	if s, ok := a.sums[key]; ok {
		return s
	}
	in := a.newInterp()
	if setup != nil {
		setup(in)
	}
	st := &State{m: map[int]*T{}}
	sig := fn.Type().(*types.Signature)
	s := &Summary{fn: fn, name: shortName(fn), in: in}
	if fd := a.prog.Funcs[fn]; fd != nil {
		s.pos = a.prog.Pos(fd.Decl.Pos())
	}
	var recv *T
	ptrRecv := -1
	if sig.Recv() != nil {
		recv = Sym("recv")
		if p, ok := under(sig.Recv().Type()).(*types.Pointer); ok {
			ptrRecv = in.newCell(st, p.Elem(), "recv", symTree(p.Elem(), "recv"), false, token.NoPos)
			in.meta[ptrRecv].input = true
			recv = in.addr(&LV{cell: ptrRecv})
		} else if _, ok := under(sig.Recv().Type()).(*types.Struct); ok {
			recv = symTree(sig.Recv().Type(), "recv")
		}
	}
	var args []*T
	for i := 0; i < sig.Params().Len(); i++ {
		k := fmt.Sprintf("a%d", i)
		if isCtxT(sig.Params().At(i).Type()) {
			k = "ctx"
		}
		s.params = append(s.params, k)
		args = append(args, Sym(k))
	}
	res := in.callDecl(a.prog.Funcs[fn], recv, args, st, token.NoPos, nil)
	for _, r := range res {
		s.res = append(s.res, in.freeze(st, r, false, token.NoPos))
	}
	if ptrRecv >= 0 {
		s.state = append(s.state, stateLeaf{"recv", in.freeze(st, st.m[ptrRecv], false, token.NoPos), nil})
	}
	s.items = *in.trace
	s.und = in.undecided
	s.nItems = countItems(s.items)
	a.sums[key] = s
	a.stats.summaries++
	a.stats.items += int64(s.nItems)
	return s
}

// symTree is the symbolic value of a struct with one symbol per leaf.
func symTree(t types.Type, path string) *T {
	u, ok := under(t).(*types.Struct)
	if !ok || bufField(t) >= 0 {
		return Sym(path)
	}
	fs := make([]*T, u.NumFields())
	for i := range fs {
		fs[i] = symTree(u.Field(i).Type(), path+"."+u.Field(i).Name())
	}
	return Struct(t, fs...)
}

// bindTree assigns a concrete struct value to the symbols of symTree.
func bindTree(sym map[string]Val, t types.Type, path string, v Val) {
	u, ok := under(t).(*types.Struct)
	sv, isS := v.(*SV)
	if !ok || bufField(t) >= 0 || !isS {
		sym[path] = v
		return
	}
	for i := 0; i < u.NumFields(); i++ {
		bindTree(sym, u.Field(i).Type(), path+"."+u.Field(i).Name(), sv.f[i])
	}
}

func isCtxT(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "QContext"
}

// Stop explains why an evaluation did not produce results.
type Stop struct {
	kind string // panic, undecided, nontermination
	msg  string
	pos  string
	fn   string
}

func (s *Stop) String() string { return fmt.Sprintf("%s: %s at %s in %s", s.kind, s.msg, s.pos, s.fn) }

// Event is one effect performed by an evaluated summary.
type Event struct {
	name string
	args []Val
	pos  string
	fn   string
	id   int
	res  map[string]Val
}

// Machine evaluates summaries on finite instances, composing them at calls
// that were left open (children, context, environment).
type Machine struct {
	a       *Analyzer
	ctx     Ctx
	dim     int64
	nodes   []Val
	on      func(m *Machine, name string, args []Val, it *Item) (map[string]Val, bool)
	events  []Event
	record  bool
	notes   []Event
	stop    *Stop
	depth   int
	encN    map[string]int // oracle children encoded
	limit   int
	iters   int64
	nSteps  int
	symGen  bool
	varDecl []string
	counts  map[string]int
	used    map[*Summary]bool
	last    Val // result of the last Encode
	rev     bool
	fnv     func(f *FV, name string, args []Val) Val
}

func NewMachine(a *Analyzer, dim int, nodes []Val) *Machine {
	return &Machine{a: a, dim: int64(dim), nodes: nodes, encN: map[string]int{}, ctx: NewSpecCtx(),
		counts: map[string]int{}, used: map[*Summary]bool{}, limit: 40000000}
}

type frameRun struct {
	m   *Machine
	sum *Summary
	env *Env
}

// Call evaluates a summary. Inputs are given by symbol name.
func (m *Machine) Call(sum *Summary, syms map[string]Val) (res []Val, state map[string]Val, stop *Stop) {
	m.used[sum] = true
	env := NewEnv()
	env.limit = m.limit
	env.rev = m.rev
	env.sym = syms
	// a loop over a text may advance a character at a time
	for _, v := range syms {
		env.maxIt = max(env.maxIt, 2000+2*longestText(v, 0))
	}
	if _, ok := syms["ctx.dim"]; !ok {
		syms["ctx.dim"] = m.dim
	}
	if _, ok := syms["ctx.nodes"]; !ok {
		if m.nodes == nil {
			syms["ctx.nodes"] = nil
		} else {
			syms["ctx.nodes"] = m.nodes
		}
	}
	env.cnfvar = m.ctx.cnfvar
	env.fnv = m.fnv
	r := &frameRun{m, sum, env}
	m.depth++
	defer func() { m.depth-- }()
	defer func() {
		if x := recover(); x != nil {
			switch y := x.(type) {
			case evalFail:
				k := "undecided"
				if strings.HasPrefix(y.msg, "nontermination") {
					k = "nontermination"
					m.a.endless.Store(sum.name, true)
				}
				stop = &Stop{k, y.msg, sum.pos, sum.name}
			case noResult:
				stop = &Stop{"undecided", y.msg, sum.pos, sum.name}
			case *Stop:
				stop = y
				if y.kind == "nontermination" {
					m.a.endless.Store(y.fn, true)
				}
			default:
				panic(x)
			}
		}
		m.nSteps += env.steps
		for _, f := range env.folds {
			m.iters += int64(len(f))
		}
	}()
	if _, ok := m.a.endless.Load(sum.name); ok {
		fail("%s does not terminate on an earlier instance", sum.name)
	}
	if m.depth > 5000 {
		fail("nesting too deep")
	}
	for _, n := range sum.und {
		if n.lossy {
			fail("%s: %s at %s", sum.name, n.msg, m.a.prog.Pos(n.pos))
		}
	}
	r.walk(sum.items, env.root)
	for _, t := range sum.res {
		res = append(res, env.eval(t, env.root))
	}
	if len(sum.state) > 0 {
		state = map[string]Val{}
		for _, l := range sum.state {
			state[l.path] = env.eval(l.out, env.root)
		}
	}
	return res, state, nil
}

func (r *frameRun) walk(items []*Item, b *binding) {
	for _, it := range items {
		if _, ok := r.env.any(it.pc, b, false); ok {
			continue
		}
		switch it.kind {
		case "check":
			if !r.env.bool(it.args[0], b) {
				panic(&Stop{"panic", it.name, r.m.a.prog.Pos(it.pos), r.sum.name})
			}
		case "note":
			if r.m.record {
				r.m.notes = append(r.m.notes, Event{name: it.name, pos: r.m.a.prog.Pos(it.pos), fn: r.sum.name})
			}
		case "loop":
			lim := r.env.iterLimit(it.conds, it.bv)
			for i := int64(0); ; i++ {
				r.m.iters++
				if i > lim {
					panic(&Stop{"nontermination", fmt.Sprintf("no exit after %d iterations", i), r.m.a.prog.Pos(it.pos), r.sum.name})
				}
				nb := bind(b, []int{it.bv}, []Val{i})
				r.walk(it.sub, nb)
				_, done := r.env.any(it.conds, nb, true)
				if len(it.conds) == 0 {
					done = i >= lim
				}
				if done {
					break
				}
			}
		case "call":
			args := make([]Val, len(it.args))
			for i, t := range it.args {
				if t.op == OSym && t.k == "ctx" {
					args[i] = r.env.sym["ctx"]
					continue
				}
				args[i] = r.env.eval(t, b)
			}
			idx := make([]Val, len(it.bvs))
			for i, t := range it.bvs {
				idx[i] = r.env.eval(t, b)
			}
			res := r.m.event(it, args, r)
			if r.m.record {
				r.m.events = append(r.m.events, Event{name: it.name, args: args, pos: r.m.a.prog.Pos(it.pos), fn: r.sum.name, id: it.id, res: res})
			}
			for k, v := range res {
				r.env.res[resKey(int64(it.id), k, idx)] = v
			}
		}
	}
}

func (m *Machine) event(it *Item, args []Val, r *frameRun) map[string]Val {
	m.counts[it.name]++
	if m.on != nil {
		if res, ok := m.on(m, it.name, args, it); ok {
			return res
		}
	}
	if strings.HasPrefix(it.name, "fn:") {
		return nil
	}
	if it.mu != nil {
		return m.muEvent(it, args, r)
	}
	if strings.HasPrefix(it.name, "rec:") {
		fn := m.a.byName(strings.TrimPrefix(it.name, "rec:"))
		if fn == nil {
			fail("%s not found", it.name)
		}
		res, stop := m.a.callFn(m, fn, args[0], args[1:]...)
		if stop != nil {
			panic(stop)
		}
		out := map[string]Val{}
		for i, v := range res {
			out[fmt.Sprint(i)] = v
		}
		return out
	}
	if strings.HasPrefix(it.name, "ctx.") {
		return m.ctx.event(m, strings.TrimPrefix(it.name, "ctx."), args)
	}
	if it.name == "enc" {
		cnf, err, stop := m.Encode(args[0], args[1])
		if stop != nil {
			panic(stop)
		}
		return map[string]Val{"0": cnf, "1": err}
	}
	fail("event %s has no interpretation here", it.name)
	return nil
}

// Oracle is a sub-query with a given formula.
type Oracle struct {
	name string
	enc  func(m *Machine) (cnf Val, err Val)
}

func oracle(name string, f func(m *Machine) (Val, Val)) Val {
	return &OV{name: name, attr: map[string]Val{"oracle": &Oracle{name, f}}}
}

// Encode evaluates the Encoding method of a query value.
func (m *Machine) Encode(q Val, ctx Val) (Val, Val, *Stop) {
	switch x := q.(type) {
	case *OV:
		o, ok := x.attr["oracle"].(*Oracle)
		if !ok {
			return nil, nil, &Stop{"undecided", "unknown query " + x.name, "", ""}
		}
		m.encN[x.name]++
		c, e := o.enc(m)
		return c, e, nil
	case *SV:
		fn := m.a.methodFn(x.typ, "Encoding")
		if fn == nil {
			return nil, nil, &Stop{"undecided", "no Encoding method on " + x.typ.String(), "", ""}
		}
		sum := m.a.Summarise(fn)
		syms := map[string]Val{"ctx": ctx}
		bindTree(syms, x.typ, "recv", x)
		res, _, stop := m.Call(sum, syms)
		if stop != nil {
			return nil, nil, stop
		}
		m.last = res[0]
		return res[0], res[1], nil
	}
	return nil, nil, &Stop{"undecided", "query value " + vkey(q), "", ""}
}

func (a *Analyzer) byName(full string) *types.Func {
	for f := range a.prog.Funcs {
		if fullName(f) == full {
			return f
		}
	}
	return nil
}

func (a *Analyzer) methodFn(t types.Type, name string) *types.Func {
	obj, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
	if obj == nil {
		if n, ok := t.(*types.Named); ok {
			obj, _, _ = types.LookupFieldOrMethod(t, true, n.Obj().Pkg(), name)
		}
	}
	f, _ := obj.(*types.Func)
	if f == nil {
		return nil
	}
	return f.Origin()
}

// contexts

// Ctx interprets the operations of a query context.
type Ctx interface {
	event(m *Machine, name string, args []Val) map[string]Val
	cnfvar(q string, i, v int64) int64
}

type scp struct {
	tgt string
	idx int64
	val Val
}

type triple struct {
	q    string
	i, v int64
}

// SpecCtx is the context as specified by P18 and P21.
type SpecCtx struct {
	scopes []scp
	vars   map[string]int // declared inside scopes: depth at declaration
	num    map[triple]int64
	order  []triple
	topv   int64
	resets int
	popBad bool

	opN    int    // scope operations that can fail so far
	failOp int    // the one that fails, counting from 1
	failed string // its name once it failed
}

// fails counts an operation and tells whether it is the one to fail.
func (c *SpecCtx) fails(op string) bool {
	c.opN++
	if c.failOp > 0 && c.opN == c.failOp {
		c.failed = op
		return true
	}
	return false
}

func NewSpecCtx() *SpecCtx {
	return &SpecCtx{vars: map[string]int{}, num: map[triple]int64{}}
}

func (c *SpecCtx) cnfvar(q string, i, v int64) int64 {
	k := triple{q, i, v}
	n, ok := c.num[k]
	if !ok {
		c.topv++
		n = c.topv
		c.num[k] = n
		c.order = append(c.order, k)
	}
	return n
}

func (c *SpecCtx) scopeVar(v string) string {
	d := c.vars[v]
	s := v
	for i := 0; i < d && i < len(c.scopes); i++ {
		s += fmt.Sprintf("@%s#%d", c.scopes[i].tgt, c.scopes[i].idx)
	}
	return s
}

func (c *SpecCtx) addVar(v string) {
	if len(c.scopes) == 0 {
		return
	}
	if _, ok := c.vars[v]; !ok {
		c.vars[v] = len(c.scopes)
	}
}

func (c *SpecCtx) scopeConst(q *SV) (*SV, bool) {
	id, _ := q.field("ID").(string)
	for i := len(c.scopes) - 1; i >= 0; i-- {
		if c.scopes[i].tgt == id {
			return mkStruct(q.typ, map[string]Val{"ID": id, "Val": c.scopes[i].val}), true
		}
	}
	return q, false
}

func (c *SpecCtx) event(m *Machine, name string, args []Val) map[string]Val {
	switch name {
	case "CNFVar":
		c.cnfvar(toStr(args[0]), args[1].(int64), args[2].(int64))
		return nil
	case "CNFVarExists":
		_, ok := c.num[triple{toStr(args[0]), args[1].(int64), args[2].(int64)}]
		return map[string]Val{"0": ok}
	case "TopV":
		return map[string]Val{"0": c.topv}
	case "UpdateTopV":
		n := args[0].(int64)
		if n < c.topv {
			return map[string]Val{"0": false}
		}
		c.topv = n
		return map[string]Val{"0": true}
	case "ScopeVar":
		return map[string]Val{"0": c.scopeVar(toStr(args[0]))}
	case "AddVar":
		c.addVar(toStr(args[0]))
		return nil
	case "ScopeConst":
		q, ok := c.scopeConst(args[0].(*SV))
		return map[string]Val{"0": q, "1": ok}
	case "AddScope":
		c.scopes = append(c.scopes, scp{tgt: toStr(args[0])})
		return nil
	case "SetScope":
		if len(c.scopes) == 0 || c.fails(name) {
			return map[string]Val{"0": &EV{kind: "ctx.SetScope"}}
		}
		s := &c.scopes[len(c.scopes)-1]
		s.idx, s.val = args[0].(int64), args[1]
		return map[string]Val{"0": nil}
	case "PopScope":
		n := len(c.scopes)
		if n > 0 && c.fails(name) {
			return map[string]Val{"0": &EV{kind: "ctx.PopScope"}}
		}
		if n == 0 {
			c.popBad = true
			return map[string]Val{"0": &EV{kind: "ctx.PopScope"}}
		}
		for v, d := range c.vars {
			if d == n {
				delete(c.vars, v)
			}
		}
		c.scopes = c.scopes[:n-1]
		return map[string]Val{"0": nil}
	case "Reset":
		c.resets++
		c.scopes, c.vars, c.num, c.topv, c.order = nil, map[string]int{}, map[triple]int64{}, 0, nil
		return nil
	}
	fail("context operation %s", name)
	return nil
}

// values

func (a *Analyzer) typeOf(rel, name string) types.Type {
	o := a.prog.Lookup(rel, name)
	if o == nil {
		fail("type %s.%s not found", rel, name)
	}
	return o.Type()
}

func zeroVal(t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsNumeric != 0:
			return int64(0)
		}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = zeroVal(u.Field(i).Type())
		}
		return &SV{t, f}
	}
	return nil
}

func mkStruct(t types.Type, kv map[string]Val) *SV {
	u := under(t).(*types.Struct)
	s := zeroVal(t).(*SV)
	left := len(kv)
	for i := 0; i < u.NumFields(); i++ {
		if v, ok := kv[u.Field(i).Name()]; ok {
			s.f[i] = v
			left--
		}
	}
	if left > 0 {
		fail("fields of %s changed", t)
	}
	return s
}

func (a *Analyzer) qconst(id string, vals []int) *SV {
	var v Val
	if vals != nil {
		xs := make([]Val, len(vals))
		for i, x := range vals {
			xs[i] = int64(x)
		}
		v = xs
	}
	return mkStruct(a.typeOf("query", "QConst"), map[string]Val{"ID": id, "Val": v})
}

// Node mirrors query.Node.
type Node struct {
	Value          bool
	Feat           int
	ZChild, OChild int
}

func (n Node) leaf() bool { return n.ZChild < 0 || n.OChild < 0 }

func (a *Analyzer) nodeVals(ns []Node) []Val {
	t := a.typeOf("query", "Node")
	out := make([]Val, len(ns))
	for i, n := range ns {
		out[i] = mkStruct(t, map[string]Val{"Value": n.Value, "Feat": int64(n.Feat), "ZChild": int64(n.ZChild), "OChild": int64(n.OChild)})
	}
	return out
}

func toClauses(v Val) [][]int {
	var out [][]int
	for _, c := range toSeq(v) {
		ls := clauseLits(c)
		o := make([]int, len(ls))
		for i, l := range ls {
			o[i] = int(l)
		}
		out = append(out, o)
	}
	return out
}

// cnfParts splits a formula value.
func (a *Analyzer) cnfParts(v Val) (tv int, s, c [][]int) {
	sv, ok := v.(*SV)
	if !ok {
		fail("formula expected, got %s", vkey(v))
	}
	return int(sv.f[a.cnf.tv].(int64)), toClauses(sv.f[a.cnf.s]), toClauses(sv.f[a.cnf.c])
}

func fromClauses(cs [][]int) Val {
	if cs == nil {
		return nil
	}
	out := make([]Val, len(cs))
	for i, c := range cs {
		o := make([]Val, len(c))
		for j, l := range c {
			o[j] = int64(l)
		}
		out[i] = o
	}
	return out
}

func (a *Analyzer) mkCNF(tv int, s, c [][]int) *SV {
	v := zeroVal(a.cnf.typ).(*SV)
	v.f[a.cnf.tv] = int64(tv)
	v.f[a.cnf.s], v.f[a.cnf.c] = fromClauses(s), fromClauses(c)
	return v
}

func sortedStr(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// field reads a field of a struct value by name.
func (s *SV) field(name string) Val {
	u, ok := under(s.typ).(*types.Struct)
	if !ok {
		fail("struct expected")
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return s.f[i]
		}
	}
	fail("field %s of %s not found", name, s.typ)
	return nil
}

// longestText is the length of the longest text in a value's fields.
func longestText(v Val, depth int) int64 {
	n := int64(0)
	switch x := v.(type) {
	case string:
		n = int64(len(x))
	case *SV:
		for _, f := range x.f {
			if depth < 3 {
				n = max(n, longestText(f, depth+1))
			}
		}
	}
	return n
}
