package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

// opaque records a call whose body is not analysed and names its results.
func (in *Interp) opaque(st *State, name string, pos token.Pos, n int, publish bool, args ...*T) []*T {
	fz := make([]*T, len(args))
	for i, a := range args {
		fz[i] = in.freeze(st, a, publish, pos)
	}
	it := in.emit(st, "call", name, pos, fz...)
	out := make([]*T, n)
	for i := range out {
		out[i] = in.res(it, fmt.Sprint(i))
	}
	return out
}

// methodOf finds the concrete method an interface call dispatches to.
func (in *Interp) methodOf(t types.Type, name string, pkg *types.Package) (*types.Func, []int) {
	obj, idx, _ := types.LookupFieldOrMethod(t, true, pkg, name)
	f, _ := obj.(*types.Func)
	return f, idx
}

func (in *Interp) invokeIface(fn *types.Func, recv *T, args []*T, st *State, pos token.Pos, n int, sig *types.Signature) []*T {
	n = sig.Results().Len()
	name := fn.Name()
	switch recv.op {
	case OIte:
		a, b := st.clone(), st.clone()
		a.assume(recv.a[0])
		b.assume(Not(recv.a[0]))
		ra := in.invokeIface(fn, recv.a[1], args, a, pos, n, sig)
		rb := in.invokeIface(fn, recv.a[2], args, b, pos, n, sig)
		if a.dead {
			*st = *b
			return rb
		}
		if b.dead {
			*st = *a
			return ra
		}
		pc := st.pc
		m := in.merge2(a, b)
		out := make([]*T, n)
		for i := range out {
			out[i] = in.mergeVal(recv.a[0], ra[i], rb[i], a, b, m, sig.Results().At(i).Type())
		}
		*st = *m
		st.pc = pc
		return out
	case ONil:
		in.check(st, "method call on nil interface", Bool(false), pos)
		st.dead = true
		in.deadFlows++
		out := make([]*T, n)
		for i := range out {
			out[i] = Undef("nil call")
		}
		return out
	case OStruct, OPtr:
		var dyn types.Type
		if recv.op == OStruct {
			dyn = recv.typ
		} else if len(recv.a) == 0 {
			dyn = types.NewPointer(in.meta[int(recv.n)].typ)
		}
		if dyn != nil {
			m, idx := in.methodOf(dyn, name, fn.Pkg())
			if m != nil {
				return in.invokeOn(m.Origin(), recv, dyn, idx, args, st, pos, n)
			}
		}
	case OErr:
		if name == "Error" {
			return []*T{Call("errstr", recv)}
		}
	case OConv, ORes:
		if name == "Error" {
			return []*T{Call("errstr", recv)}
		}
	}
	in.check(st, "method call on nil interface", Not(Eq(recv, Nil())), pos)
	switch name {
	case "Dim":
		if n == 1 {
			return []*T{Sym("ctx.dim")}
		}
	case "Nodes":
		if n == 1 {
			return []*T{Sym("ctx.nodes")}
		}
	case "CNFVar":
		if len(args) == 3 {
			in.emit(st, "call", "ctx.CNFVar", pos, args...)
			return []*T{Call("cnfvar", args...)}
		}
	case "ScopeVar", "AddVar", "ScopeConst", "AddScope", "PopScope", "TopV", "UpdateTopV", "CNFVarExists", "Reset":
		return in.opaque(st, "ctx."+name, pos, n, true, args...)
	case "SetScope":
		return in.opaque(st, "ctx."+name, pos, n, false, args...)
	case "Encoding":
		return in.opaque(st, "enc", pos, n, true, append([]*T{recv}, args...)...)
	case "Sat":
		return in.opaque(st, "sat", pos, n, true, append([]*T{recv}, args...)...)
	case "Step":
		return in.opaque(st, "step", pos, n, true, append([]*T{recv}, args...)...)
	case "Values":
		return in.opaque(st, "values", pos, n, true, append([]*T{recv}, args...)...)
	case "Error":
		return []*T{Call("errstr", recv)}
	case "String":
		return []*T{Call("str", recv)}
	case "Write", "WriteString":
		return in.writeTo(recv, in.content(st, args[0]), st, pos)
	}
	return in.opaque(st, "iface:"+name, pos, n, true, append([]*T{recv}, args...)...)
}

// invokeOn calls concrete method m on a receiver of dynamic type dyn, walking
// the embedding path.
func (in *Interp) invokeOn(m *types.Func, recv *T, dyn types.Type, idx []int, args []*T, st *State, pos token.Pos, n int) []*T {
	sig := m.Type().(*types.Signature)
	wantPtr := isPtrT(sig.Recv().Type())
	if isIfaceT(sig.Recv().Type()) {
		wantPtr = false
	}
	var lv *LV
	t := dyn
	v := recv
	if p, ok := under(t).(*types.Pointer); ok {
		lv = in.ptrLV(st, v, pos)
		t = p.Elem()
	} else {
		c := in.newCell(st, t, "recv", v, false, pos)
		lv = &LV{cell: c}
	}
	for _, i := range idx[:len(idx)-1] {
		if p, ok := under(t).(*types.Pointer); ok {
			lv = in.ptrLV(st, in.load(st, lv), pos)
			t = p.Elem()
		}
		sty, ok := under(t).(*types.Struct)
		if !ok {
			break
		}
		lv = lv.with(pe{field: i})
		t = sty.Field(i).Type()
	}
	var r *T
	if wantPtr {
		if isPtrT(t) {
			r = in.load(st, lv)
		} else {
			r = in.addr(lv)
		}
	} else {
		r = in.load(st, lv)
		if isPtrT(t) && !isPtrT(sig.Recv().Type()) {
			r = in.load(st, in.ptrLV(st, r, pos))
		}
	}
	return in.invoke(m, r, args, st, pos, n, sig.Results(), nil)
}

// contract models of package cnf

type cnfShape struct {
	typ     types.Type
	n       int
	tv      int
	s, c    int
	clauseT types.Type
}

// shapeCNF locates the components of cnf.CNF.
func shapeCNF(p *Program) (*cnfShape, error) {
	o := p.Lookup("cnf", "CNF")
	if o == nil {
		return nil, fmt.Errorf("type cnf.CNF not found")
	}
	st, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		return nil, fmt.Errorf("cnf.CNF is not a struct")
	}
	sh := &cnfShape{typ: o.Type(), n: st.NumFields(), tv: -1, s: -1, c: -1}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch {
		case isSliceT(f.Type()):
			lower := strings.ToLower(f.Name())
			if strings.HasPrefix(lower, "c") && sh.c < 0 && sh.s >= 0 || strings.HasPrefix(lower, "con") {
				sh.c = i
			} else if sh.s < 0 {
				sh.s = i
			} else if sh.c < 0 {
				sh.c = i
			}
			sh.clauseT = f.Type()
		default:
			if b, ok := under(f.Type()).(*types.Basic); ok && b.Info()&types.IsInteger != 0 && sh.tv < 0 {
				sh.tv = i
			}
		}
	}
	if sh.s < 0 || sh.c < 0 || sh.tv < 0 {
		return nil, fmt.Errorf("cnf.CNF: semantic clauses, consistency clauses and top variable not identified")
	}
	return sh, nil
}

func (sh *cnfShape) mk(tv, s, c *T) *T {
	st := sh.typ.Underlying().(*types.Struct)
	fs := make([]*T, sh.n)
	for i := range fs {
		fs[i] = zero(st.Field(i).Type())
	}
	fs[sh.tv], fs[sh.s], fs[sh.c] = tv, s, c
	return Struct(sh.typ, fs...)
}

// cnfModel applies the contracts of package cnf (properties P13 to P15) at
// call sites outside the package.
func (in *Interp) cnfModel(fn *types.Func, recv *T, args []*T, st *State, pos token.Pos) ([]*T, bool) {
	if fn.Pkg() == nil || fn.Pkg().Path() != in.prog.Module+"/cnf" {
		return nil, false
	}
	sh := in.cnf
	if sh == nil {
		return nil, false
	}
	sig := fn.Type().(*types.Signature)
	fz := func(t *T, publish bool) *T { return asSeqOr(in.freeze(st, t, publish, pos)) }
	if sig.Recv() == nil {
		if fn.Name() == "FromClauses" && len(args) == 1 {
			c := fz(args[0], true)
			return []*T{sh.mk(Call("maxvar", c), c, Seq())}, true
		}
		return nil, false
	}
	if recv == nil || isPtrT(sig.Recv().Type()) {
		return nil, false
	}
	rt, ok := sig.Recv().Type().(*types.Named)
	if !ok || rt.Obj().Name() != "CNF" {
		return nil, false
	}
	tv, s, c := Field(recv, sh.tv), fz(Field(recv, sh.s), false), fz(Field(recv, sh.c), false)
	switch fn.Name() {
	case "AppendSemantics":
		x := fz(args[0], true)
		return []*T{sh.mk(Call("max", tv, Call("maxvar", x)), Concat(s, x), c)}, true
	case "AppendConsistency":
		x := fz(args[0], true)
		return []*T{sh.mk(Call("max", tv, Call("maxvar", x)), s, Concat(c, x))}, true
	case "Conjunction":
		o := args[0]
		return []*T{sh.mk(Call("max", tv, Field(o, sh.tv)), Concat(s, fz(Field(o, sh.s), true)), Concat(c, fz(Field(o, sh.c), true)))}, true
	case "TopV":
		return []*T{tv}, true
	case "Clauses":
		return []*T{s, c}, true
	case "ToFile":
		return in.opaque(st, "cnf.ToFile", pos, 1, false, recv, args[0]), true
	case "ToBytes":
		return []*T{Call("cnf.ToBytes", recv)}, true
	}
	return nil, false
}

// models of the standard library

func pkgType(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// bufField is the slot of a writer's value that holds its text.
func bufField(t types.Type) int {
	switch pkgType(t) {
	case "strings.Builder":
		return 0
	case "bytes.Buffer":
		return 1
	case "bufio.Writer":
		return 2
	}
	return -1
}

func (in *Interp) cellOf(p *T) (types.Type, bool) {
	if p.op != OPtr {
		return nil, false
	}
	t := in.meta[int(p.n)].typ
	for _, x := range p.a {
		if x.op == OPField {
			s, ok := under(t).(*types.Struct)
			if !ok {
				return nil, false
			}
			t = s.Field(int(x.n)).Type()
		} else {
			t = elemType(t)
		}
	}
	return t, t != nil
}

func (in *Interp) bufText(p *T, st *State, pos token.Pos) (*T, bool) {
	t, ok := in.cellOf(p)
	if !ok || bufField(t) < 0 {
		return nil, false
	}
	v := in.content(st, Field(in.load(st, in.ptrLV(st, p, pos)), bufField(t)))
	if v.op == OInt || v.op == ONil {
		v = Str("")
	}
	return v, true
}

func (in *Interp) setBufText(p, s *T, st *State, pos token.Pos) {
	t, _ := in.cellOf(p)
	lv := in.ptrLV(st, p, pos).with(pe{field: bufField(t)})
	in.store(st, lv, s, pos)
}

func (in *Interp) writeTo(w, s *T, st *State, pos token.Pos) []*T {
	if w.op == OConv {
		w = w.a[0]
	}
	if old, ok := in.bufText(w, st, pos); ok {
		in.setBufText(w, Cat(old, s), st, pos)
		return []*T{Len(s), Nil()}
	}
	return in.opaque(st, "file.Write", pos, 2, false, w, s)
}

func variadic(in *Interp, st *State, a *T) []*T {
	c := in.content(st, a)
	if c.op == ONil {
		return nil
	}
	if !allElems(c) {
		return nil
	}
	out := make([]*T, len(c.a))
	for i, x := range c.a {
		out[i] = x.a[0]
	}
	return out
}

// format renders a constant format string over its operands.
func (in *Interp) format(st *State, f *T, va *T) (*T, []*T) {
	args := variadic(in, st, va)
	c := in.content(st, va)
	if f.op != OStr || (c.op != ONil && !allElems(c)) {
		return Call("sprintf", f, asSeqOr(in.freeze(st, va, false, token.NoPos))), args
	}
	s := f.k
	var parts []*T
	var wrapped []*T
	lit := func(x string) { parts = append(parts, Str(x)) }
	k := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			j := i
			for j < len(s) && s[j] != '%' {
				j++
			}
			lit(s[i:j])
			i = j - 1
			continue
		}
		j := i + 1
		for j < len(s) && strings.ContainsRune("+-# 0123456789.", rune(s[j])) {
			j++
		}
		if j >= len(s) {
			lit(s[i:])
			break
		}
		if s[j] == '%' {
			lit("%")
		} else if k < len(args) {
			if s[j] == 'w' {
				wrapped = append(wrapped, args[k])
			}
			parts = append(parts, Call("fmt:"+s[i:j+1], in.freeze(st, args[k], false, token.NoPos)))
			k++
		}
		i = j
	}
	return Cat(parts...), wrapped
}

func (in *Interp) mkErr(kind string, pos token.Pos, wrapped ...*T) *T {
	return mk(OErr, kind+"@"+in.prog.Pos(pos), 0, nil, nil, nil, wrapped...)
}

func (in *Interp) errIs(e, t *T) *T {
	if e.op == OIte {
		return Ite(e.a[0], in.errIs(e.a[1], t), in.errIs(e.a[2], t))
	}
	if e == t {
		return Bool(true)
	}
	if e.op == ONil || t.op == ONil {
		return Eq(e, t)
	}
	if e.op == OErr && t.op == OErr {
		r := Bool(e.k == t.k && len(e.a) == 0 && len(t.a) == 0)
		for _, w := range e.a {
			r = Or(r, in.errIs(w, t))
		}
		return r
	}
	return Call("errors.Is", e, t)
}

// importedType is a type of a package that p depends on.
func importedType(p *types.Package, path, name string) types.Type {
	for _, q := range p.Imports() {
		if q.Path() == path {
			if o := q.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

// readAll is the text left in a reader.
func (in *Interp) readAll(p *T, st *State, pos token.Pos) (*T, bool) {
	t, ok := in.cellOf(p)
	if !ok {
		return nil, false
	}
	switch pkgType(t) {
	case "strings.Reader", "bytes.Reader":
		lv := in.ptrLV(st, p, pos)
		v := in.content(st, Field(in.load(st, lv), 0))
		lv.path = append(lv.path, pe{field: 0})
		in.store(st, lv, Str(""), pos)
		return v, true
	case "bytes.Buffer":
		s, ok := in.bufText(p, st, pos)
		if ok {
			in.setBufText(p, Str(""), st, pos)
		}
		return s, ok
	}
	return nil, false
}

func (in *Interp) external(fn *types.Func, name string, recv *T, args []*T, st *State, pos token.Pos, sig *types.Signature) []*T {
	n := sig.Results().Len()
	one := func(t *T) []*T { return []*T{t} }
	c := func(i int) *T { return in.content(st, args[i]) }
	recvStr := func() *T {
		if s, ok := in.bufText(recv, st, pos); ok {
			return s
		}
		in.note(pos, "%s on unresolved receiver", name)
		return Undef(name)
	}
	switch name {
	case "(*sync.Pool).Put":
		return nil
	case "(*sync.Pool).Get":
		v := in.load(st, in.ptrLV(st, recv, pos))
		s, ok := under(sig.Recv().Type().(*types.Pointer).Elem()).(*types.Struct)
		for i := 0; ok && v.op == OStruct && i < s.NumFields(); i++ {
			if s.Field(i).Name() != "New" {
				continue
			}
			if v.a[i].op != OFunc {
				return one(Nil())
			}
			p := in.callValue(v.a[i], "New", s.Field(i).Type().Underlying().(*types.Signature), nil, st, pos)[0]
			if _, ok := in.bufText(p, st, pos); ok {
				// what the last user left in it
				in.setBufText(p, Str("1 2 3 0\n"), st, pos)
			}
			return one(p)
		}
		in.lossy(pos, "pool without a known constructor")
		return one(Undef(name))
	case "errors.New":
		return one(in.mkErr("new", pos))
	case "fmt.Errorf":
		_, w := in.format(st, args[0], args[1])
		return one(in.mkErr("errorf", pos, w...))
	case "errors.Is":
		return one(in.errIs(args[0], args[1]))
	case "errors.Unwrap":
		return one(Call("errors.Unwrap", args[0]))
	case "errors.Join":
		es := variadic(in, st, args[0])
		all := Bool(true)
		for _, e := range es {
			all = And(all, Eq(e, Nil()))
		}
		return one(Ite(all, Nil(), in.mkErr("join", pos, es...)))
	case "errors.As":
		t, ok := in.cellOf(args[1])
		if !ok {
			in.note(pos, "errors.As target not resolved")
			return one(Undef("errors.As"))
		}
		ty := types.TypeString(t, nil)
		okT := Call("errors.As:"+ty, args[0])
		if args[0].op == ONil {
			okT = Bool(false)
		}
		lv := in.ptrLV(st, args[1], pos)
		old := in.load(st, lv)
		in.store(st, lv, Ite(okT, mk(OConv, "as:"+ty, 0, nil, nil, nil, args[0]), old), pos)
		return one(okT)
	case "fmt.Sprintf":
		s, _ := in.format(st, args[0], args[1])
		return one(s)
	case "fmt.Sprint":
		var parts []*T
		for _, a := range variadic(in, st, args[0]) {
			parts = append(parts, Call("fmt:%v", in.freeze(st, a, false, pos)))
		}
		if len(parts) > 1 {
			return one(Call("sprint", asSeqOr(in.freeze(st, args[0], false, pos))))
		}
		return one(Cat(parts...))
	case "fmt.Sprintln":
		return one(Cat(Call("sprintln", asSeqOr(in.freeze(st, args[0], false, pos)))))
	case "fmt.Fprintf":
		s, _ := in.format(st, args[1], args[2])
		return in.writeTo(args[0], s, st, pos)
	case "fmt.Fprint":
		return in.writeTo(args[0], Call("sprint", asSeqOr(in.freeze(st, args[1], false, pos))), st, pos)
	case "fmt.Fprintln":
		return in.writeTo(args[0], Call("sprintln", asSeqOr(in.freeze(st, args[1], false, pos))), st, pos)
	case "fmt.Appendf":
		s, _ := in.format(st, args[1], args[2])
		return one(Cat(c(0), s))
	case "io.WriteString":
		return in.writeTo(args[0], c(1), st, pos)
	case "strconv.Itoa":
		return one(Call("itoa", args[0]))
	case "strconv.FormatInt":
		if args[1].isInt() && args[1].n == 10 {
			return one(Call("itoa", args[0]))
		}
	case "strconv.AppendInt":
		if args[2].isInt() && args[2].n == 10 {
			b := c(0)
			if b.op == ONil {
				b = Str("")
			}
			return one(Cat(b, Call("itoa", args[1])))
		}
	case "strconv.Atoi":
		return []*T{Call("atoi", c(0)), Call("atoierr", c(0))}
	case "strconv.ParseInt":
		if args[1].isInt() && args[1].n == 10 && args[2].isInt() && (args[2].n == 0 || args[2].n == 64) {
			return []*T{Call("atoi", c(0)), Call("atoierr", c(0))}
		}
	case "os.IsNotExist", "os.IsExist", "os.IsPermission", "os.IsTimeout":
		return one(Call("errkind:"+name, args[0]))
	case "strings.Join", "strings.Repeat", "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.TrimSpace",
		"strings.Split", "strings.Fields", "strings.TrimPrefix", "strings.TrimSuffix", "strings.Trim", "strings.TrimRight", "strings.TrimLeft",
		"strings.Compare", "strings.Index", "strings.ToLower", "strings.ToUpper", "strings.EqualFold", "strings.ReplaceAll", "strings.Count",
		"strings.SplitN", "strings.IndexByte",
		"bytes.Split", "bytes.Fields", "bytes.HasPrefix", "bytes.HasSuffix", "bytes.TrimSpace", "bytes.TrimPrefix", "bytes.TrimSuffix",
		"bytes.Equal", "bytes.Contains", "bytes.Index", "bytes.IndexByte", "bytes.Join", "bytes.Trim", "bytes.TrimRight", "bytes.TrimLeft", "bytes.Clone", "bytes.SplitN", "strings.SplitAfter", "bytes.SplitAfter":
		as := make([]*T, len(args))
		for i := range args {
			as[i] = in.freeze(st, args[i], false, pos)
		}
		return one(Call(strings.Replace(name, "bytes.", "strings.", 1), as...))
	case "strings.Cut", "bytes.Cut", "strings.CutPrefix", "bytes.CutPrefix":
		k := strings.Replace(name, "bytes.", "strings.", 1)
		out := make([]*T, n)
		for i := range out {
			out[i] = Call(fmt.Sprintf("%s#%d", k, i), c(0), c(1))
		}
		return out
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).Write", "(*strings.Builder).Write",
		"(*bufio.Writer).WriteString", "(*bufio.Writer).Write", "(*os.File).WriteString", "(*os.File).Write":
		return in.writeTo(recv, c(0), st, pos)
	case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte", "(*bufio.Writer).WriteByte":
		return in.writeTo(recv, chr(args[0]), st, pos)[1:]
	case "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune", "(*bufio.Writer).WriteRune":
		return in.writeTo(recv, chr(args[0]), st, pos)
	case "(*strings.Builder).String", "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes":
		return one(recvStr())
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		return one(Len(recvStr()))
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		recvStr()
		in.setBufText(recv, Str(""), st, pos)
		return nil
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return nil
	case "bytes.NewBufferString", "bytes.NewBuffer":
		t := sig.Results().At(0).Type().(*types.Pointer).Elem()
		v := zero(t)
		cell := in.newCell(st, t, "buffer", v, false, pos)
		p := in.addr(&LV{cell: cell})
		s := c(0)
		if s.op != ONil {
			in.setBufText(p, s, st, pos)
		}
		return one(p)
	case "bufio.NewWriter", "bufio.NewWriterSize":
		t := sig.Results().At(0).Type().(*types.Pointer).Elem()
		fs := append([]*T{}, zero(t).a...)
		fs[2] = Str("")
		fs[3] = args[0]
		cell := in.newCell(st, t, "bufio", Struct(t, fs...), false, pos)
		return one(in.addr(&LV{cell: cell}))
	case "(*bufio.Writer).Flush":
		if t, ok := in.cellOf(recv); ok && bufField(t) == 2 {
			v := in.load(st, in.ptrLV(st, recv, pos))
			s, _ := in.bufText(recv, st, pos)
			in.setBufText(recv, Str(""), st, pos)
			return in.writeTo(Field(v, 3), s, st, pos)[1:]
		}
	case "strings.NewReader", "bytes.NewReader":
		t := sig.Results().At(0).Type().(*types.Pointer).Elem()
		fs := append([]*T{}, zero(t).a...)
		fs[0] = c(0)
		if fs[0].op == ONil {
			fs[0] = Str("")
		}
		cell := in.newCell(st, t, "reader", Struct(t, fs...), false, pos)
		return one(in.addr(&LV{cell: cell}))
	case "bufio.NewScanner", "bufio.NewReader", "bufio.NewReaderSize":
		if s, ok := in.readAll(args[0], st, pos); ok {
			k := "bufio.readerOf"
			if name == "bufio.NewScanner" {
				k = "bufio.scannerOf"
			}
			return in.callDecl(in.prog.prelude[k], nil, []*T{s}, st, pos, nil)
		}
		in.note(pos, "%s is not modelled", name)
	case "context.Background", "context.TODO":
		return one(Call("context", Str(name)))
	case "io.Copy":
		if s, ok := in.readAll(args[1], st, pos); ok {
			return in.writeTo(args[0], s, st, pos)
		}
	case "io.ReadAll":
		if s, ok := in.readAll(args[0], st, pos); ok {
			return []*T{s, Nil()}
		}
	case "(*bufio.Scanner).Split":
		if args[0].op == OFunc && in.isPrelude(recv) {
			if f := in.funcs[args[0].n].fn; f != nil && (f.Name() == "ScanLines" || f.Name() == "ScanWords") {
				k := "bufio.lines"
				if f.Name() == "ScanWords" {
					k = "bufio.words"
				}
				in.callDecl(in.prog.prelude[k], nil, []*T{recv}, st, pos, nil)
				return nil
			}
		}
	case "os.Create":
		return in.opaque(st, "os.Create", pos, 2, false, args[0])
	case "os.CreateTemp":
		return in.opaque(st, "os.CreateTemp", pos, 2, false, args...)
	case "os.OpenFile":
		return in.opaque(st, "os.OpenFile", pos, 2, false, args[0], args[1])
	case "os.Remove", "os.RemoveAll":
		return in.opaque(st, name, pos, 1, false, args...)
	case "os.WriteFile":
		return in.opaque(st, "os.WriteFile", pos, 1, false, args[0], c(1))
	case "os.Stat", "os.Lstat":
		return in.opaque(st, "os.Stat", pos, 2, false, args...)
	case "os/exec.LookPath":
		return in.opaque(st, "exec.LookPath", pos, 2, false, args...)
	case "os.MkdirTemp":
		return in.opaque(st, name, pos, 2, false, args...)
	case "path/filepath.Glob":
		return in.opaque(st, "filepath.Glob", pos, 2, false, args...)
	case "os.TempDir":
		return one(Str("/tmp"))
	case "(*os.File).Name":
		return one(Call("file.name", recv))
	case "(*os.File).Close":
		return in.opaque(st, "file.Close", pos, 1, false, recv)
	case "(*os.File).Sync":
		return in.opaque(st, "file.Sync", pos, 1, false, recv)
	case "path/filepath.Join", "path.Join":
		return one(Call("path.Join", asSeqOr(in.freeze(st, args[0], false, pos))))
	case "os/exec.Command", "os/exec.CommandContext":
		if name == "os/exec.CommandContext" {
			args = args[1:]
		}
		t := sig.Results().At(0).Type().(*types.Pointer).Elem()
		v := zero(t)
		fs := append([]*T{}, v.a...)
		sty := under(t).(*types.Struct)
		for i := 0; i < sty.NumFields(); i++ {
			switch sty.Field(i).Name() {
			case "Path":
				fs[i] = args[0]
			case "Args":
				fs[i] = Seq(Elem(args[0]), Splice(asSeqOr(in.freeze(st, args[1], false, pos))))
			}
		}
		cell := in.newCell(st, t, "cmd", Struct(t, fs...), false, pos)
		return one(in.addr(&LV{cell: cell}))
	case "(*os/exec.Cmd).StdoutPipe":
		bt := importedType(fn.Pkg(), "bytes", "Buffer")
		if _, ok := in.cellOf(recv); !ok || bt == nil {
			break
		}
		p := in.addr(&LV{cell: in.newCell(st, bt, "pipe", zero(bt), false, pos)})
		in.pipes[int(recv.n)] = p
		return []*T{p, Nil()}
	case "(*os/exec.Cmd).Wait":
		t, ok := in.cellOf(recv)
		it := in.started[int(recv.n)]
		if !ok || it == nil {
			break
		}
		v := in.load(st, in.ptrLV(st, recv, pos))
		sty := under(t).(*types.Struct)
		for i := 0; i < sty.NumFields(); i++ {
			if k := sty.Field(i).Name(); (k == "Stdout" || k == "Stderr") && Field(v, i).op != ONil {
				in.writeTo(Field(v, i), in.res(it, strings.ToLower(k)), st, pos)
			}
		}
		return one(in.res(it, "err"))
	case "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput", "(*os/exec.Cmd).Start":
		t, ok := in.cellOf(recv)
		if !ok {
			break
		}
		lv := in.ptrLV(st, recv, pos)
		v := in.load(st, lv)
		sty := under(t).(*types.Struct)
		fld := func(k string) (*T, int) {
			for i := 0; i < sty.NumFields(); i++ {
				if sty.Field(i).Name() == k {
					return Field(v, i), i
				}
			}
			return Nil(), -1
		}
		path, _ := fld("Path")
		as, _ := fld("Args")
		it := in.emit(st, "call", "exec.Run", pos, path, in.freeze(st, as, false, pos))
		err := in.res(it, "err")
		start := name == "(*os/exec.Cmd).Start"
		for _, k := range []string{"Stdout", "Stderr"} {
			w, _ := fld(k)
			if w.op == ONil || start {
				continue
			}
			in.writeTo(w, in.res(it, strings.ToLower(k)), st, pos)
		}
		_, pi := fld("ProcessState")
		if pi >= 0 {
			in.store(st, lv.with(pe{field: pi}), in.res(it, "pstate"), pos)
		}
		if start {
			in.started[int(recv.n)] = it
			if p := in.pipes[int(recv.n)]; p != nil {
				in.setBufText(p, in.res(it, "stdout"), st, pos)
			}
			return one(Call("starterr", err))
		}
		if name == "(*os/exec.Cmd).Run" {
			return one(err)
		}
		return []*T{in.res(it, "stdout"), err}
	case "(*os.ProcessState).ExitCode":
		return one(Call("exitcode", recv))
	case "(*os.ProcessState).Success":
		return one(Eq(Call("exitcode", recv), Int(0)))
	case "slices.Clip":
		r := in.newSlice(st, sig.Params().At(0).Type(), asSeqOr(c(0)), true, pos)
		m := in.meta[int(r.n)]
		if args[0].op == OSliceV {
			m.view, m.off = int(args[0].n), Int(0)
			in.share(m.view, int(r.n))
			m.foreign = in.meta[int(args[0].n)].foreign || in.meta[int(args[0].n)].input
		} else {
			m.foreign = true
		}
		m.from, _ = in.origin(args[0])
		m.capped = true
		return one(Ite2Nil(args[0], r))
	case "slices.Clone":
		r := in.newSlice(st, sig.Params().At(0).Type(), asSeqOr(c(0)), true, pos)
		return one(Ite2Nil(args[0], r))
	case "slices.Concat":
		seq := Seq()
		for _, x := range variadic(in, st, args[0]) {
			seq = Seq(Splice(seq), Splice(asSeqOr(in.freeze(st, x, false, pos))))
		}
		return one(in.newSlice(st, sig.Results().At(0).Type(), seq, true, pos))
	case "slices.Grow":
		return one(args[0])
	case "slices.Contains":
		return one(Call("contains", asSeqOr(in.freeze(st, args[0], false, pos)), args[1]))
	case "slices.Index":
		return one(Call("index", asSeqOr(in.freeze(st, args[0], false, pos)), args[1]))
	case "slices.Equal":
		return one(Call("seqeq", asSeqOr(in.freeze(st, args[0], false, pos)), asSeqOr(in.freeze(st, args[1], false, pos))))
	case "slices.Max", "slices.Min":
		in.check(st, "slices.Max of empty slice", Lt(Int(0), Len(c(0))), pos)
		return one(Call(strings.ToLower(name), asSeqOr(in.freeze(st, args[0], false, pos))))
	case "slices.Reverse":
		if args[0].op == OSliceV {
			in.store(st, &LV{cell: int(args[0].n)}, Call("reverse", asSeqOr(in.freeze(st, args[0], false, pos))), pos)
			return nil
		}
	case "slices.Sort", "sort.Ints", "sort.Strings":
		if args[0].op == OSliceV {
			in.store(st, &LV{cell: int(args[0].n)}, Call("sort", asSeqOr(in.freeze(st, args[0], false, pos))), pos)
			return nil
		}
		in.emit(st, "note", "store-alias", pos, args[0])
	case "maps.Clone":
		return one(in.newMap(st, sig.Params().At(0).Type(), c(0), pos))
	case "math.Abs":
		return one(Call("abs", args[0]))
	case "time.Now", "time.Since", "os.Getenv", "os.Getpid", "math/rand.Int", "math/rand.Intn":
		in.emit(st, "note", "environment", pos, Str(name))
		if name == "os.Getpid" {
			return one(Int(4711))
		}
	}
	if k, ok := pureName(name); ok && recv == nil {
		as := make([]*T, len(args))
		for i := range args {
			as[i] = in.freeze(st, args[i], false, pos)
		}
		out := make([]*T, n)
		for i := range out {
			out[i] = Call(fmt.Sprintf("pure:%s#%d", k, i), as...)
		}
		return out
	}
	if strings.HasPrefix(name, "math/rand") || strings.HasPrefix(name, "time.") || strings.HasPrefix(name, "os.") {
		in.emit(st, "note", "environment", pos, Str(name))
	}
	in.note(pos, "no model for %s", name)
	as := args
	if recv != nil {
		as = append([]*T{recv}, args...)
	}
	return in.opaque(st, "ext:"+name, pos, n, true, as...)
}

// Ite2Nil keeps nil slices nil through a copy.
func Ite2Nil(v, r *T) *T {
	if v.op == ONil {
		return v
	}
	return r
}

func chr(t *T) *T {
	if t.isInt() {
		return Str(string(rune(t.n)))
	}
	return Call("chr", t)
}

var _ = constant.MakeBool
