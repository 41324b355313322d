package main

import (
	"fmt"
	"go/types"
	"math/rand"
	"path"
	"sort"
	"strings"
)

// world interprets the effects that the summaries of package compute are left
// with: temporary files, the solver process, and calls through the Solver,
// QDTFCombinator and Encodable interfaces.
type world struct {
	a     *Analyzer
	m     *Machine
	files map[string]*wfile
	made  []string // files created, in order
	nTmp  int
	// failures
	n      int // events that could fail so far
	failAt int
	mute   bool // the process writes nothing to its standard error
	failed bool
	what   string
	where  string
	quiet  map[string]bool // event kinds never failed
	// the solver process
	verdict func(w *world, text string) (code int64, out string, cannotRun bool)
	runs    []wrun
	// scripted interfaces
	step    func(w *world, q Val) Val
	values  func(w *world, vars []Val) (Val, Val)
	onEnc   func(w *world)
	solver  Val
	atLeast int
	nStep   int
	nValue  int
	bad     []string
	log     []string
	before  func() // called before every effect
}

type wfile struct {
	text   string
	exists bool
	open   bool
	temp   bool
	own    bool // certainly did not exist before
}

type wrun struct {
	path string
	args []string
	text string
	file string
}

func (a *Analyzer) newWorld(dim int, nodes []Val, ctx Ctx) *world {
	w := &world{a: a, m: NewMachine(a, dim, nodes), files: map[string]*wfile{}, failAt: -1}
	w.m.ctx = ctx
	w.m.on = w.on
	return w
}

func (w *world) fault(name string, it *Item) *EV {
	if w.quiet[name] {
		return nil
	}
	k := w.n
	w.n++
	if k == w.failAt {
		w.failed, w.what = true, name
		if it != nil {
			w.where = w.a.prog.Pos(it.pos)
		}
		return &EV{kind: "fault " + name}
	}
	return nil
}

func filePath(v Val) string {
	switch o := v.(type) {
	case *OV:
		if p, ok := o.attr["path"].(string); ok {
			return p
		}
		return o.name
	case string:
		return o
	}
	return vkey(v)
}

func ret(vs ...Val) (map[string]Val, bool) {
	out := map[string]Val{}
	for i, v := range vs {
		out[fmt.Sprint(i)] = v
	}
	return out, true
}

func errVal(e *EV) Val {
	if e == nil {
		return nil
	}
	return e
}

func (w *world) create(p string, temp bool) Val {
	f := w.files[p]
	if f == nil {
		f = &wfile{temp: temp, own: temp}
		for q, d := range w.files {
			if d.temp && strings.HasPrefix(p, q+"/") {
				f.own = true
			}
		}
		w.files[p] = f
		w.made = append(w.made, p)
	}
	f.exists, f.open, f.text = true, true, ""
	return &OV{name: p, attr: map[string]Val{"path": p}}
}

// openMode decodes the flags of os.OpenFile.
func openMode(flag Val) (create, excl, trunc, app, write bool) {
	n, ok := flag.(int64)
	if !ok {
		fail("os.OpenFile with flags %s", vkey(flag))
	}
	return n&64 != 0, n&128 != 0, n&512 != 0, n&1024 != 0, n&3 != 0
}

// writeAt gives the text of a file after writing s through the handle.
func writeAt(text string, h Val, s string) string {
	o, ok := h.(*OV)
	if !ok || o.attr == nil {
		return text + s
	}
	if o.attr["append"] == true {
		return text + s
	}
	at, _ := o.attr["pos"].(int64)
	o.attr["pos"] = at + int64(len(s))
	if int(at) > len(text) {
		text += strings.Repeat("\x00", int(at)-len(text))
	}
	end := int(at) + len(s)
	if end >= len(text) {
		return text[:at] + s
	}
	return text[:at] + s + text[end:]
}

func (w *world) on(m *Machine, name string, args []Val, it *Item) (map[string]Val, bool) {
	w.log = append(w.log, name)
	if w.before != nil {
		w.before()
	}
	switch name {
	case "os.CreateTemp", "os.MkdirTemp":
		if e := w.fault(name, it); e != nil {
			return ret(nil, e)
		}
		w.nTmp++
		dir, pat := toStr(args[0]), toStr(args[1])
		if dir == "" {
			dir = "/tmp"
		}
		k := strings.LastIndex(pat, "*")
		if k < 0 {
			k = len(pat)
			pat += "*"
		}
		p := fmt.Sprintf("%s/%s%d%s", dir, pat[:k], 70000+w.nTmp, pat[k+1:])
		f := w.create(p, true)
		if name == "os.MkdirTemp" {
			return ret(p, nil)
		}
		return ret(f, nil)
	case "os.Create":
		if e := w.fault(name, it); e != nil {
			return ret(nil, e)
		}
		return ret(w.create(toStr(args[0]), false), nil)
	case "os.OpenFile":
		if e := w.fault(name, it); e != nil {
			return ret(nil, e)
		}
		p := toStr(args[0])
		create, excl, trunc, app, write := openMode(args[1])
		f := w.files[p]
		have := f != nil && f.exists
		if !have && !create || have && create && excl {
			return ret(nil, &EV{kind: "open " + p})
		}
		old := ""
		if have && !trunc {
			old = f.text
		}
		h := w.create(p, have && f.temp).(*OV)
		if create && excl {
			w.files[p].own = true
		}
		w.files[p].text = old
		h.attr["append"] = app
		h.attr["readonly"] = !write
		return ret(h, nil)
	case "os.WriteFile":
		if e := w.fault(name, it); e != nil {
			return ret(e)
		}
		p := toStr(args[0])
		w.create(p, false)
		w.files[p].text = toStr(args[1])
		return ret(nil)
	case "file.Write":
		if args[0] == nil {
			return ret(int64(0), &EV{kind: "write to nil file"})
		}
		if e := w.fault(name, it); e != nil {
			return ret(int64(0), e)
		}
		p, s := filePath(args[0]), toStr(args[1])
		if f := w.files[p]; f == nil || !f.open {
			return ret(int64(0), &EV{kind: "file closed"})
		}
		if o, ok := args[0].(*OV); ok && o.attr["readonly"] == true {
			return ret(int64(0), &EV{kind: "file not open for writing"})
		}
		w.files[p].text = writeAt(w.files[p].text, args[0], s)
		return ret(int64(len(s)), nil)
	case "file.Close":
		if args[0] == nil {
			return ret(&EV{kind: "close of nil file"})
		}
		if f := w.files[filePath(args[0])]; f != nil {
			f.open = false
		}
		return ret(errVal(w.fault(name, it)))
	case "file.Sync":
		return ret(errVal(w.fault(name, it)))
	case "os.Remove", "os.RemoveAll":
		p := toStr(args[0])
		if e := w.fault(name, it); e != nil {
			return ret(e)
		}
		hit := false
		for q, f := range w.files {
			if q == p || name == "os.RemoveAll" && strings.HasPrefix(q, p+"/") {
				if f.exists {
					hit = true
					if !f.own {
						w.bad = append(w.bad, "removes "+q+", which may have been there before")
					}
				}
				f.exists = false
			}
		}
		if !hit {
			if w.files[p] == nil {
				w.bad = append(w.bad, "removes "+p+", which it did not create")
			}
			return ret(&EV{kind: "no such file"})
		}
		return ret(nil)
	case "filepath.Glob":
		// somebody else's file matches, too
		if p := strings.ReplaceAll(toStr(args[0]), "*", "99"); w.files[p] == nil {
			w.files[p] = &wfile{exists: true}
		}
		var hits []Val
		for q, f := range w.files {
			if ok, _ := path.Match(toStr(args[0]), q); ok && f.exists {
				hits = append(hits, q)
			}
		}
		sort.Slice(hits, func(i, j int) bool { return toStr(hits[i]) < toStr(hits[j]) })
		return ret(hits, nil)
	case "os.Stat":
		if e := w.fault(name, it); e != nil {
			return ret(nil, e)
		}
		return ret(&OV{name: "info"}, nil)
	case "exec.LookPath":
		if e := w.fault(name, it); e != nil {
			return ret("", e)
		}
		return ret(toStr(args[0]), nil)
	case "exec.Run":
		if e := w.fault(name, it); e != nil {
			return map[string]Val{"err": e, "stdout": "", "stderr": "", "pstate": nil}, true
		}
		run := wrun{path: toStr(args[0])}
		for _, x := range toSeq(args[1]) {
			run.args = append(run.args, toStr(x))
		}
		for _, p := range run.args[min(1, len(run.args)):] {
			if f := w.files[p]; f != nil && f.exists {
				run.file, run.text = p, f.text
			}
		}
		w.runs = append(w.runs, run)
		code, out, cannot := w.verdict(w, run.text)
		if cannot {
			return map[string]Val{"err": &EV{kind: "cannot run"}, "stdout": "", "stderr": "", "pstate": nil}, true
		}
		ps := &OV{name: "pstate", attr: map[string]Val{"code": code}}
		var err Val
		if code != 0 {
			err = &EV{kind: "exit", code: code}
		}
		return map[string]Val{"err": err, "stdout": out, "stderr": w.noise(code, out), "pstate": ps}, true
	case "step":
		w.nStep++
		if w.nStep > w.stepCap() {
			panic(&Stop{"endless", fmt.Sprintf("%d solver calls and still going", w.nStep-1), "", ""})
		}
		if w.step != nil {
			if e := w.fault(name, it); e != nil {
				return ret(e)
			}
			return ret(w.step(w, args[1]))
		}
		return ret(w.doStep(args[1], args[2]))
	case "values":
		w.nValue++
		if w.values != nil {
			if e := w.fault(name, it); e != nil {
				return ret(nil, e)
			}
			v, e := w.values(w, toSeq(args[1]))
			return ret(v, e)
		}
		v, e := w.doValues(args[1], args[2])
		return ret(v, e)
	case "sat":
		switch x := args[0].(type) {
		case *OV:
			f, ok := x.attr["sat"].(func(w *world, args []Val) (Val, Val))
			if !ok {
				fail("element %s", x.name)
			}
			v, e := f(w, args)
			return ret(v, e)
		case *SV, *NV:
			v, e := w.doSat(x, args[1], args[2])
			return ret(v, e)
		}
		fail("element %s", vkey(args[0]))
	case "enc":
		if w.onEnc != nil {
			w.onEnc(w)
		}
		if q, ok := args[0].(*OV); ok && q.attr["oracle"] != nil {
			if e := w.fault(name, it); e != nil {
				return ret(w.a.mkCNF(0, nil, nil), e)
			}
		}
	}
	return nil, false
}

// stepCap bounds the solver calls of one computation: each one of a strictly
// improving sequence yields another instance.
func (w *world) stepCap() int {
	n := max(8, w.atLeast)
	for i := int64(0); i < int64(w.m.dim) && n < 2000; i++ {
		n *= 3
	}
	return n
}

// noise is what the solver process writes to its standard error: text that
// tells another story than its output.
func (w *world) noise(code int64, out string) string {
	if w.mute {
		return ""
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "verbose: exit %d\n", code)
	for _, ln := range strings.Split(out, "\n") {
		if !strings.HasPrefix(ln, "v") {
			continue
		}
		sb.WriteString("v")
		for _, f := range strings.Fields(ln[1:]) {
			if n, ok := atoi(f); ok && n != 0 {
				fmt.Fprintf(&sb, " %d", -n)
			}
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

// NV is a value of a named slice type, needed where the type decides which
// method is meant.
type NV struct {
	typ types.Type
	v   []Val
}

// run evaluates a function of package compute in this world.
func (w *world) run(fn *types.Func, recv Val, ctx Val, args map[string]Val) ([]Val, map[string]Val, *Stop) {
	sum := w.a.Summarise(fn)
	syms := map[string]Val{"ctx": ctx}
	if rt := fn.Type().(*types.Signature).Recv(); rt != nil {
		t := rt.Type()
		if p, ok := under(t).(*types.Pointer); ok {
			t = p.Elem()
		}
		bindTree(syms, t, "recv", recv)
	}
	for k, v := range args {
		syms[k] = v
	}
	return w.m.Call(sum, syms)
}

// implementers are the library types with the method.
func (a *Analyzer) solverType() (types.Type, error) {
	o := a.prog.Lookup("compute", "Solver")
	if o == nil {
		return nil, fmt.Errorf("compute.Solver not found")
	}
	iface, ok := o.Type().Underlying().(*types.Interface)
	if !ok {
		return nil, fmt.Errorf("compute.Solver is not an interface")
	}
	var found types.Type
	for _, p := range a.libPkgs() {
		if path.Base(p.Path) != "compute" {
			continue
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || isIfaceT(tn.Type()) {
				continue
			}
			if types.Implements(tn.Type(), iface) || types.Implements(types.NewPointer(tn.Type()), iface) {
				if found != nil {
					return nil, fmt.Errorf("several solver types")
				}
				found = tn.Type()
			}
		}
	}
	if found == nil {
		return nil, fmt.Errorf("no type implements compute.Solver")
	}
	return found, nil
}

const solverPath = "/opt/solver bin"

// newSolver is the state of a solver as the constructor leaves it.
func (a *Analyzer) newSolver() (Val, error) {
	t, err := a.solverType()
	if err != nil {
		return nil, err
	}
	s, ok := zeroVal(t).(*SV)
	if !ok {
		return nil, fmt.Errorf("solver type %s", t)
	}
	u := under(t).(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		if b, ok := under(ft).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			s.f[i] = solverPath
		}
		if isMapT(ft) {
			s.f[i] = &MV{}
		}
	}
	return s, nil
}

func (w *world) doStep(q, ctx Val) Val {
	t, err := w.a.solverType()
	if err != nil {
		fail("%s", err)
	}
	fn := w.a.methodFn(t, "Step")
	res, state, stop := w.run(fn, w.solver, ctx, map[string]Val{"a0": q})
	if stop != nil {
		panic(stop)
	}
	if st, ok := state["recv"]; ok {
		w.solver = st
	}
	return res[0]
}

func (w *world) doValues(vars, ctx Val) (Val, Val) {
	t, err := w.a.solverType()
	if err != nil {
		fail("%s", err)
	}
	fn := w.a.methodFn(t, "Values")
	res, state, stop := w.run(fn, w.solver, ctx, map[string]Val{"a0": vars})
	if stop != nil {
		panic(stop)
	}
	if st, ok := state["recv"]; ok {
		w.solver = st
	}
	return res[0], res[1]
}

func (w *world) doSat(x Val, ctx, solver Val) (Val, Val) {
	var t types.Type
	recv := x
	switch y := x.(type) {
	case *SV:
		t = y.typ
	case *NV:
		t, recv = y.typ, Val(y.v)
	}
	fn := w.a.methodFn(t, "Sat")
	if fn == nil {
		fail("no Sat method on %s", t)
	}
	res, _, stop := w.run(fn, recv, ctx, map[string]Val{"a1": solver})
	if stop != nil {
		panic(stop)
	}
	return res[0], res[1]
}

// leftovers lists files created and not removed.
func (w *world) leftovers() []string {
	var out []string
	for _, p := range w.made {
		if w.files[p].exists {
			out = append(out, p)
		}
	}
	return out
}

// try runs f, catching a Stop.
func try(f func()) (stop *Stop) {
	defer func() {
		if x := recover(); x != nil {
			switch y := x.(type) {
			case *Stop:
				stop = y
			case evalFail:
				k := "undecided"
				if strings.HasPrefix(y.msg, "nontermination") {
					k = "nontermination"
				}
				stop = &Stop{k, y.msg, "", ""}
			case noResult:
				stop = &Stop{"undecided", y.msg, "", ""}
			default:
				panic(x)
			}
		}
	}()
	f()
	return nil
}

// parseDIMACS reads the clauses of a DIMACS text.
func parseDIMACS(text string) (nv int, cls [][]int, ok bool) {
	cur := []int{}
	header := false
	for _, ln := range strings.Split(text, "\n") {
		f := strings.Fields(ln)
		if len(f) == 0 || f[0] == "c" {
			continue
		}
		if f[0] == "p" {
			if len(f) != 4 {
				return 0, nil, false
			}
			n, good := atoi(f[2])
			if !good {
				return 0, nil, false
			}
			nv, header = int(n), true
			continue
		}
		for _, t := range f {
			n, good := atoi(t)
			if !good {
				return 0, nil, false
			}
			if n == 0 {
				cls = append(cls, cur)
				cur = []int{}
				continue
			}
			cur = append(cur, int(n))
		}
	}
	return nv, cls, header && len(cur) == 0
}

// solveText plays a SAT solver that picks a model by the seed.
func solveText(text string, seed int64) (code int64, out string) {
	nv, cls, ok := parseDIMACS(text)
	if !ok {
		return 1, "c parse error\n"
	}
	nv = max(nv, maxAbs(cls))
	s := newSatN(nv, cls)
	if !s.solve() {
		return 20, "c done\ns UNSATISFIABLE\n"
	}
	rd := rand.New(rand.NewSource(seed))
	var as []int
	for _, v := range rd.Perm(nv) {
		l := v + 1
		if rd.Intn(2) == 0 {
			l = -l
		}
		if !s.solve(append(as, l)...) {
			l = -l
		}
		as = append(as, l)
	}
	val := make([]int, nv)
	for _, l := range as {
		if l > 0 {
			val[l-1] = l
		} else {
			val[-l-1] = l
		}
	}
	return 10, "c found\ns SATISFIABLE\n" + vLines(val, 5+int(seed%7))
}

// vLines prints a valuation as value lines of at most width literals.
func vLines(val []int, width int) string {
	var sb strings.Builder
	for i := 0; i <= len(val); i++ {
		if i%width == 0 {
			if i > 0 {
				sb.WriteByte('\n')
			}
			sb.WriteByte('v')
		}
		if i == len(val) {
			sb.WriteString(" 0\n")
		} else {
			fmt.Fprintf(&sb, " %d", val[i])
		}
	}
	return sb.String()
}
