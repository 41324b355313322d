package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"path"
	"sort"
	"strings"
)

// Results in storage that is used again.
//
// A storage path names the array behind a slice, or the bytes of a buffer,
// that outlives a call: a field reached through the receiver or a pointer
// parameter, a package-level variable, or something taken from a pool. Local
// variables carry storage paths at sub-paths of theirs. A path is overwritten
// where its elements are assigned, where it is cut back and appended to, and
// where a buffer is reset. Handing out an overwritten path (returning it from
// an exported function or keeping it in a field) is reported.

type carry struct{ sub, path string }

type carries map[carry]bool

func (c carries) add(o carries) bool {
	ch := false
	for k := range o {
		if !c[k] && strings.Count(k.sub, ".")+strings.Count(k.sub, "[]") < 5 && strings.Count(k.path, ".")+strings.Count(k.path, "[]") < 6 {
			c[k], ch = true, true
		}
	}
	return ch
}

// below gives what is carried at the sub-path s.
func (c carries) below(s string) carries {
	out := carries{}
	for k := range c {
		switch {
		case strings.HasPrefix(k.sub, s) && (len(k.sub) == len(s) || k.sub[len(s)] == '.' || k.sub[len(s)] == '['):
			out[carry{k.sub[len(s):], k.path}] = true
		case k.sub == "":
			out[carry{"", k.path + s}] = true
		}
	}
	return out
}

func (c carries) under(s string) carries {
	out := carries{}
	for k := range c {
		out[carry{s + k.sub, k.path}] = true
	}
	return out
}

type reuseFn struct {
	fd   *FuncDecl
	env  map[types.Object]carries
	ret  []carries
	cut  map[string]bool // cut back in this function
	wr   map[int]bool    // parameters whose elements are overwritten
	recv types.Object
	par  map[types.Object]int
}

type reuseFind struct{ pkg, fn, where, what string }

type reuse struct {
	a     *Analyzer
	fns   map[*types.Func]*reuseFn
	over  map[string]token.Pos // overwritten paths
	kept  map[string]map[string]token.Pos
	moved bool
}

func canCarry(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
		return n.Obj().Name() == "Pool"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Signature, *types.Chan:
		return false
	case *types.Interface:
		return !types.Identical(t, types.Universe.Lookup("error").Type())
	case *types.Array:
		return canCarry(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if canCarry(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func (a *Analyzer) reused() []reuseFind {
	a.reuseOnce.Do(func() { a.reuseRes = a.reuseScan() })
	return a.reuseRes
}

func (a *Analyzer) reuseScan() []reuseFind {
	ru := &reuse{a: a, fns: map[*types.Func]*reuseFn{}, over: map[string]token.Pos{}, kept: map[string]map[string]token.Pos{}}
	fds := a.libFuncs()
	for _, fd := range fds {
		f := &reuseFn{fd: fd, env: map[types.Object]carries{}, cut: map[string]bool{}, wr: map[int]bool{}, par: map[types.Object]int{}}
		sig := fd.Obj.Type().(*types.Signature)
		f.ret = make([]carries, sig.Results().Len())
		for i := range f.ret {
			f.ret[i] = carries{}
		}
		if r := sig.Recv(); r != nil && fd.Decl.Recv != nil && len(fd.Decl.Recv.List) > 0 && len(fd.Decl.Recv.List[0].Names) > 0 {
			f.recv = fd.Pkg.Info.Defs[fd.Decl.Recv.List[0].Names[0]]
		}
		n := 0
		for _, fl := range fd.Decl.Type.Params.List {
			for _, id := range fl.Names {
				f.par[fd.Pkg.Info.Defs[id]] = n
				n++
			}
			if len(fl.Names) == 0 {
				n++
			}
		}
		ru.fns[fd.Obj] = f
	}
	for i := 0; i < 12; i++ {
		ru.moved = false
		for _, fd := range fds {
			ru.scan(ru.fns[fd.Obj])
		}
		if !ru.moved {
			break
		}
	}
	var out []reuseFind
	for _, fd := range fds {
		f := ru.fns[fd.Obj]
		if !fd.Obj.Exported() {
			continue
		}
		for i, c := range f.ret {
			for _, k := range sortedCarries(c) {
				if w, pos := ru.overwritten(k.path); w != "" {
					out = append(out, reuseFind{path.Base(fd.Pkg.Path), shortName(fd.Obj), a.posOf(fd.Obj), fmt.Sprintf("result %d is kept in %s, which is written again at %s", i, pretty(w), a.prog.Pos(pos))})
				}
			}
		}
	}
	for _, dst := range sortedNames(ru.kept) {
		for _, src := range sortedNames(ru.kept[dst]) {
			if w, pos := ru.overwritten(src); w != "" && !related(dst, src) {
				at := ru.kept[dst][src]
				fn, pkg := ru.fnAt(at)
				out = append(out, reuseFind{pkg, fn, a.prog.Pos(at), fmt.Sprintf("%s refers to %s, which is written again at %s", pretty(dst), pretty(w), a.prog.Pos(pos))})
			}
		}
	}
	return out
}

func related(a, b string) bool { return strings.HasPrefix(a, b) || strings.HasPrefix(b, a) }

func pretty(p string) string { return strings.TrimPrefix(p, "!") }

func sortedNames[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func sortedCarries(c carries) []carry {
	var out []carry
	for k := range c {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].sub+"|"+out[i].path < out[j].sub+"|"+out[j].path })
	return out
}

func (ru *reuse) fnAt(pos token.Pos) (string, string) {
	for _, f := range ru.fns {
		if f.fd.Decl.Pos() <= pos && pos <= f.fd.Decl.End() {
			return shortName(f.fd.Obj), path.Base(f.fd.Pkg.Path)
		}
	}
	return "", ""
}

// overwritten reports whether the storage p, or storage reached from it, is
// overwritten.
func (ru *reuse) overwritten(p string) (string, token.Pos) {
	for _, w := range sortedNames(ru.over) {
		if w == p || strings.HasPrefix(w, p) && (w[len(p)] == '.' || w[len(p)] == '[') {
			return w, ru.over[w]
		}
	}
	return "", 0
}

func (ru *reuse) overwrite(f *reuseFn, c carries, pos token.Pos) {
	for k := range c {
		if n, rest := 0, strings.TrimLeft(strings.TrimPrefix(k.path, "#"), "0123456789"); k.sub == "" && strings.HasPrefix(k.path, "#") {
			fmt.Sscanf(k.path[1:], "%d", &n)
			if rest == "" && !f.wr[n] {
				f.wr[n], ru.moved = true, true
			}
		}
		if k.sub == "" && !strings.HasPrefix(k.path, "#") {
			if _, ok := ru.over[k.path]; !ok {
				ru.over[k.path] = pos
				ru.moved = true
			}
		}
	}
}

func (ru *reuse) setVar(f *reuseFn, o types.Object, c carries) {
	if o == nil || len(c) == 0 || !canCarry(o.Type()) {
		return
	}
	if f.env[o] == nil {
		f.env[o] = carries{}
	}
	if f.env[o].add(c) {
		ru.moved = true
	}
}

// assign models lhs = c.
func (ru *reuse) assign(f *reuseFn, lhs ast.Expr, c carries) {
	info := f.fd.Pkg.Info
	sub := ""
	e := lhs
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
			continue
		case *ast.StarExpr:
			e = x.X
			continue
		case *ast.IndexExpr:
			if tv := info.Types[x.X]; tv.Type != nil {
				if _, m := tv.Type.Underlying().(*types.Map); !m {
					if _, ar := tv.Type.Underlying().(*types.Array); !ar {
						ru.overwrite(f, ru.expr(f, x.X), lhs.Pos())
					}
				}
			}
			sub, e = "[]"+sub, x.X
			continue
		case *ast.SelectorExpr:
			if info.Selections[x] != nil {
				sub, e = "."+x.Sel.Name+sub, x.X
				continue
			}
			e = x.Sel
			continue
		case *ast.Ident:
			o := info.Defs[x]
			if o == nil {
				o = info.Uses[x]
			}
			v, ok := o.(*types.Var)
			if !ok {
				return
			}
			root := ru.rootOf(f, v)
			if root != "" && (sub != "" || v.Pkg() != nil && v.Parent() == v.Pkg().Scope()) {
				for k := range c {
					if strings.HasPrefix(k.path, "#") {
						continue
					}
					dst := root + sub + k.sub
					if ru.kept[dst] == nil {
						ru.kept[dst] = map[string]token.Pos{}
					}
					if _, ok := ru.kept[dst][k.path]; !ok {
						ru.kept[dst][k.path] = lhs.Pos()
						ru.moved = true
					}
				}
				return
			}
			ru.setVar(f, o, c.under(sub))
			return
		case *ast.SliceExpr:
			e = x.X
			continue
		}
		return
	}
}

// rootOf names the storage a variable stands for that outlives the call.
func (ru *reuse) rootOf(f *reuseFn, v *types.Var) string {
	if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
		return "!" + v.Pkg().Name() + "." + v.Name()
	}
	if v == f.recv {
		if p, ok := v.Type().(*types.Pointer); ok {
			if n, ok := p.Elem().(*types.Named); ok {
				return "!" + n.Obj().Pkg().Name() + "." + n.Obj().Name()
			}
		}
	}
	return ""
}

// place is what a part of e carries, e being an array that is cut or a value
// like any other.
func (ru *reuse) place(f *reuseFn, e ast.Expr) carries {
	info := f.fd.Pkg.Info
	e = ast.Unparen(e)
	if tv := info.Types[e]; tv.Type != nil {
		if _, ok := tv.Type.Underlying().(*types.Array); !ok {
			return ru.expr(f, e)
		}
	}
	switch x := e.(type) {
	case *ast.Ident:
		if v, ok := info.Uses[x].(*types.Var); ok {
			if r := ru.rootOf(f, v); r != "" {
				return carries{carry{"", r}: true}
			}
		}
	case *ast.SelectorExpr:
		if info.Selections[x] == nil {
			return ru.place(f, x.Sel)
		}
		return ru.expr(f, x.X).below("." + x.Sel.Name)
	case *ast.IndexExpr:
		return ru.place(f, x.X).below("[]")
	}
	return ru.expr(f, e)
}

func (ru *reuse) expr(f *reuseFn, e ast.Expr) carries {
	info := f.fd.Pkg.Info
	tv := info.Types[e]
	out := carries{}
	if tv.Type != nil && !tv.IsType() {
		if _, tup := tv.Type.(*types.Tuple); !tup && !canCarry(tv.Type) {
			// still look for effects
			if c, ok := e.(*ast.CallExpr); ok {
				ru.call(f, c, 0)
			}
			return out
		}
	}
	switch x := e.(type) {
	case *ast.Ident:
		v, ok := info.Uses[x].(*types.Var)
		if !ok {
			if v, ok = info.Defs[x].(*types.Var); !ok {
				return out
			}
		}
		if r := ru.rootOf(f, v); r != "" {
			out[carry{"", r}] = true
		}
		if i, ok := f.par[v]; ok {
			out[carry{"", fmt.Sprintf("#%d", i)}] = true
		}
		out.add(f.env[v])
	case *ast.ParenExpr:
		return ru.expr(f, x.X)
	case *ast.StarExpr:
		return ru.expr(f, x.X)
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			return ru.expr(f, x.X)
		}
	case *ast.TypeAssertExpr:
		return ru.expr(f, x.X)
	case *ast.SelectorExpr:
		if info.Selections[x] == nil {
			return ru.expr(f, x.Sel)
		}
		return ru.expr(f, x.X).below("." + x.Sel.Name)
	case *ast.IndexExpr:
		return ru.expr(f, x.X).below("[]")
	case *ast.SliceExpr:
		c := ru.place(f, x.X)
		if x.Max != nil {
			return c
		}
		if x.High != nil {
			for k := range c {
				if k.sub == "" {
					f.cut[k.path] = true
				}
			}
		}
		return c
	case *ast.CompositeLit:
		st, _ := tv.Type.Underlying().(*types.Struct)
		for i, el := range x.Elts {
			sub, val := "[]", el
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				val = kv.Value
				if id, ok := kv.Key.(*ast.Ident); ok && st != nil {
					sub = "." + id.Name
				}
			} else if st != nil {
				sub = "." + st.Field(i).Name()
			}
			out.add(ru.expr(f, val).under(sub))
		}
	case *ast.CallExpr:
		return ru.call(f, x, 0)
	}
	return out
}

// call gives what the i-th result carries.
func (ru *reuse) call(f *reuseFn, x *ast.CallExpr, i int) carries {
	info := f.fd.Pkg.Info
	out := carries{}
	if info.Types[x.Fun].IsType() {
		if len(x.Args) == 1 {
			at, tt := info.Types[x.Args[0]].Type, info.Types[x].Type
			if at != nil && tt != nil && canCarry(at) && canCarry(tt) {
				return ru.expr(f, x.Args[0])
			}
		}
		return out
	}
	if id, ok := x.Fun.(*ast.Ident); ok {
		if _, b := info.Uses[id].(*types.Builtin); b {
			switch id.Name {
			case "append":
				base := ru.expr(f, x.Args[0])
				for k := range base {
					if k.sub == "" && f.cut[k.path] && !capped(x.Args[0]) {
						ru.overwrite(f, carries{k: true}, x.Pos())
					}
				}
				if !capped(x.Args[0]) {
					out.add(base)
				}
				for j, arg := range x.Args[1:] {
					c := ru.expr(f, arg)
					if x.Ellipsis != token.NoPos && j == len(x.Args)-2 {
						out.add(c.below("[]").under("[]"))
					} else {
						out.add(c.under("[]"))
					}
				}
				// elements without storage of their own carry nothing
				if s, ok := info.Types[x].Type.Underlying().(*types.Slice); ok && !canCarry(s.Elem()) {
					for k := range out {
						if k.sub != "" {
							delete(out, k)
						}
					}
				}
			case "copy":
				ru.overwrite(f, ru.expr(f, x.Args[0]), x.Pos())
			case "clear":
				if tv := info.Types[x.Args[0]]; tv.Type != nil {
					if _, m := tv.Type.Underlying().(*types.Map); !m {
						ru.overwrite(f, ru.expr(f, x.Args[0]), x.Pos())
					}
				}
			}
			return out
		}
	}
	var fn *types.Func
	var recv carries
	switch g := x.Fun.(type) {
	case *ast.Ident:
		fn, _ = info.Uses[g].(*types.Func)
	case *ast.SelectorExpr:
		fn, _ = info.Uses[g.Sel].(*types.Func)
		if info.Selections[g] != nil {
			recv = ru.expr(f, g.X)
		}
	}
	if fn == nil {
		for _, arg := range x.Args {
			ru.expr(f, arg)
		}
		return out
	}
	switch fn.FullName() {
	case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).AvailableBuffer":
		return recv
	case "(*bytes.Buffer).Reset", "(*bytes.Buffer).Truncate":
		ru.overwrite(f, recv, x.Pos())
		return out
	case "(*sync.Pool).Get":
		for k := range recv {
			p := "!pool " + strings.TrimPrefix(k.path, "!")
			if _, ok := ru.over[p]; !ok {
				ru.over[p] = x.Pos()
				ru.moved = true
			}
			out[carry{"", p}] = true
		}
		return out
	}
	if p := fn.Pkg(); p != nil && p.Path() == "bytes" {
		for _, pre := range []string{"Trim", "Split", "Fields", "Cut"} {
			if strings.HasPrefix(fn.Name(), pre) && len(x.Args) > 0 {
				c := ru.expr(f, x.Args[0])
				out.add(c)
				out.add(c.under("[]"))
				return out
			}
		}
	}
	callee := ru.fns[fn]
	args := make([]carries, len(x.Args))
	for j, arg := range x.Args {
		args[j] = ru.expr(f, arg)
	}
	if callee == nil {
		return out
	}
	for n := range callee.wr {
		if n < len(args) {
			ru.overwrite(f, args[n], x.Pos())
		}
	}
	if i >= len(callee.ret) {
		return out
	}
	for k := range callee.ret[i] {
		if strings.HasPrefix(k.path, "#") {
			n := 0
			rest := strings.TrimLeft(k.path[1:], "0123456789")
			fmt.Sscanf(k.path[1:], "%d", &n)
			if n < len(args) {
				c := args[n]
				if rest != "" {
					c = c.below(rest)
				}
				out.add(c.under(k.sub))
			}
			continue
		}
		out[k] = true
	}
	// a callee that writes through a parameter
	for w := range callee.cut {
		if strings.HasPrefix(w, "#") {
			n := 0
			fmt.Sscanf(w[1:], "%d", &n)
			if n < len(args) && strings.TrimLeft(w[1:], "0123456789") == "" {
				for k := range args[n] {
					if k.sub == "" {
						f.cut[k.path] = true
					}
				}
			}
		}
	}
	return out
}

// capped reports whether e is a slice expression with a bounded capacity.
func capped(e ast.Expr) bool {
	s, ok := e.(*ast.SliceExpr)
	return ok && s.Max != nil
}

func (ru *reuse) scan(f *reuseFn) {
	info := f.fd.Pkg.Info
	var lits []ast.Node
	ast.Inspect(f.fd.Decl.Body, func(n ast.Node) bool {
		if n == nil {
			if len(lits) > 0 {
				lits = lits[:len(lits)-1]
			}
			return true
		}
		lits = append(lits, n)
		switch x := n.(type) {
		case *ast.AssignStmt:
			if len(x.Lhs) > 1 && len(x.Rhs) == 1 {
				for i, l := range x.Lhs {
					c := carries{}
					switch y := x.Rhs[0].(type) {
					case *ast.CallExpr:
						c = ru.call(f, y, i)
					default:
						if i == 0 {
							c = ru.expr(f, y)
						}
					}
					ru.assign(f, l, c)
				}
				return true
			}
			for i, l := range x.Lhs {
				if i < len(x.Rhs) {
					ru.assign(f, l, ru.expr(f, x.Rhs[i]))
				}
			}
		case *ast.IncDecStmt:
			ru.assign(f, x.X, carries{})
		case *ast.ValueSpec:
			for i, id := range x.Names {
				if len(x.Values) == len(x.Names) {
					ru.assign(f, id, ru.expr(f, x.Values[i]))
				} else if len(x.Values) == 1 {
					if y, ok := x.Values[0].(*ast.CallExpr); ok {
						ru.assign(f, id, ru.call(f, y, i))
					}
				}
			}
		case *ast.RangeStmt:
			if x.Value != nil {
				ru.assign(f, x.Value, ru.expr(f, x.X).below("[]"))
			}
		case *ast.ExprStmt:
			ru.expr(f, x.X)
		case *ast.DeferStmt:
			ru.expr(f, x.Call)
		case *ast.ReturnStmt:
			for _, l := range lits {
				if _, ok := l.(*ast.FuncLit); ok {
					return true
				}
			}
			sig := f.fd.Obj.Type().(*types.Signature)
			if len(x.Results) == 0 {
				for i := 0; i < sig.Results().Len(); i++ {
					if c := f.env[sig.Results().At(i)]; c != nil && f.ret[i].add(c) {
						ru.moved = true
					}
				}
				return true
			}
			if len(x.Results) == 1 && len(f.ret) > 1 {
				if y, ok := x.Results[0].(*ast.CallExpr); ok {
					for i := range f.ret {
						if f.ret[i].add(ru.call(f, y, i)) {
							ru.moved = true
						}
					}
				}
				return true
			}
			for i, e := range x.Results {
				if i < len(f.ret) && f.ret[i].add(ru.expr(f, e)) {
					ru.moved = true
				}
			}
		}
		_ = info
		return true
	})
}

// checkReuse reports the findings of the packages with the given short names.
func (a *Analyzer) checkReuse(r *Report, rule string, pkgs ...string) {
	n := 0
	for _, fd := range a.libFuncs() {
		for _, p := range pkgs {
			if path.Base(fd.Pkg.Path) == p {
				n++
			}
		}
	}
	r.ok(rule, n)
	for _, x := range a.reused() {
		for _, p := range pkgs {
			if x.pkg == p {
				r.bad(rule, x.fn, x.where, x.what)
			}
		}
	}
}
