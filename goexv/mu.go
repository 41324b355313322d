package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
)

// A recursive call of a function that shares storage with its caller is left
// open as an event whose meaning is the function's own summary over that
// storage: its inputs are the arguments and the contents of every shared cell,
// its results the returned values and the new contents.

type muRec struct {
	key      string
	sum      *Summary
	cells    []int
	entry    *State
	unpinned map[string]bool
	building bool
	grew     bool
}

// prune drops the branches of conditional values the path rules out.
func (in *Interp) prune(st *State) {
	known := map[*T]bool{}
	for _, c := range st.pc {
		known[c] = true
	}
	memo := map[*T]*T{}
	var f func(v *T) *T
	f = func(v *T) *T {
		if v == nil {
			return v
		}
		if r, ok := memo[v]; ok {
			return r
		}
		r := v
		switch v.op {
		case OIte:
			if known[v.a[0]] {
				r = f(v.a[1])
			} else if known[Not(v.a[0])] {
				r = f(v.a[2])
			} else if a, b := f(v.a[1]), f(v.a[2]); a != v.a[1] || b != v.a[2] {
				r = Ite(v.a[0], a, b)
			}
		case OStruct:
			as := make([]*T, len(v.a))
			diff := false
			for i, x := range v.a {
				as[i] = f(x)
				diff = diff || as[i] != x
			}
			if diff {
				r = rebuild(v, as)
			}
		}
		memo[v] = r
		return r
	}
	for k, v := range st.m {
		if r := f(v); r != v {
			st.m[k] = r
		}
	}
}

// leaves lists the contents of the record's cells in state st.
func (in *Interp) muLeaves(mr *muRec, st *State, grew *bool) []*T {
	lc := &loopCtx{in: in, unpinned: mr.unpinned}
	var out []*T
	for _, c := range mr.cells {
		cur, ok := st.m[c]
		if !ok {
			cur = mr.entry.m[c]
		}
		if in.meta[c].content {
			out = append(out, in.content(st, cur))
			continue
		}
		out = append(out, lc.outs(mr.entry.m[c], cur, in.meta[c].typ, st, fmt.Sprint(c), grew)...)
	}
	return out
}

// muSet gives the record's cells the contents leaf returns, in order.
func (in *Interp) muSet(mr *muRec, st *State, leaf func() *T) {
	lc := &loopCtx{in: in, unpinned: mr.unpinned, leaf: leaf}
	for _, c := range mr.cells {
		if in.meta[c].content {
			st.m[c] = leaf()
			continue
		}
		st.m[c] = lc.placeholder(mr.entry.m[c], in.meta[c].typ, mr.entry, st, fmt.Sprint(c))
	}
}

// pinnedArg arguments are the same reference at every level of the recursion.
func (in *Interp) pinnedArg(v *T, o types.Object) bool {
	switch v.op {
	case OPtr, OFunc:
		return true
	case OSliceV, OMapV:
		return o == nil || in.prog.written[o]
	case OIte:
		return in.pinnedArg(v.a[1], o) || in.pinnedArg(v.a[2], o)
	}
	return false
}

// shared collects the cells reachable from a value.
func (in *Interp) shared(st *State, v *T, cells map[int]bool, seen map[*T]bool) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	switch v.op {
	case OPtr, OSliceV, OMapV:
		c := int(v.n)
		if !cells[c] {
			if x, ok := st.m[c]; ok {
				cells[c] = true
				in.shared(st, x, cells, seen)
			}
		}
	case OFunc:
		fv := in.funcs[v.n]
		if fv.recv != nil {
			in.shared(st, fv.recv, cells, seen)
		}
		if fv.lit != nil {
			in.captured(st, fv, cells, seen)
		}
	}
	for _, x := range v.a {
		in.shared(st, x, cells, seen)
	}
}

func (in *Interp) captured(st *State, fv *FuncVal, cells map[int]bool, seen map[*T]bool) {
	info := fv.frame.pkg.Info
	ast.Inspect(fv.lit, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		o, ok := info.Uses[id].(*types.Var)
		if !ok {
			return true
		}
		if c, ok := fv.frame.lookup(o); ok && !cells[c] {
			if x, ok := st.m[c]; ok {
				cells[c] = true
				in.shared(st, x, cells, seen)
			}
		}
		return true
	})
}

// callMu performs a recursive call. run executes the body on the arguments.
func (in *Interp) callMu(id, name string, roots []*T, args []*T, objs []types.Object, nres int, st *State, pos token.Pos, run func(args []*T, st *State) []*T) []*T {
	fail := func(f string, a ...any) []*T {
		in.lossy(pos, f, a...)
		out := make([]*T, nres)
		for i := range out {
			out[i] = Undef("recursive call")
		}
		return out
	}
	in.prune(st)
	key := id
	var vals []*T
	for _, r := range roots {
		if r != nil {
			key += "|" + r.String()
		}
	}
	for i, x := range args {
		var o types.Object
		if i < len(objs) {
			o = objs[i]
		}
		if in.pinnedArg(x, o) {
			key += fmt.Sprintf("|%d=%s", i, x)
			continue
		}
		vals = append(vals, in.freeze(st, x, false, pos))
	}
	if in.mus == nil {
		in.mus = map[string]*muRec{}
	}
	mr := in.mus[key]
	if mr == nil {
		if in.muDepth >= 4 {
			return fail("recursive call of %s whose references change from level to level", name)
		}
		mr = &muRec{key: key, building: true, unpinned: map[string]bool{}, sum: &Summary{name: name, in: in, pos: in.prog.Pos(pos)}}
		in.mus[key] = mr
		in.muBuild(mr, roots, args, objs, st, pos, run)
		mr.building = false
	}
	grew := false
	leaves := in.muLeaves(mr, st, &grew)
	if grew {
		if mr.building {
			mr.grew = true
		} else {
			return fail("recursive call of %s with other references than before", name)
		}
	}
	if !mr.building && in.quiet == 0 {
		for _, n := range mr.sum.und {
			in.undecided = append(in.undecided, n)
		}
	}
	it := in.emit(st, "call", "mu:"+name, pos, append(append([]*T{}, vals...), leaves...)...)
	it.mu = mr.sum
	if in.muEv == nil {
		in.muEv = map[int64]*muRec{}
	}
	in.muEv[int64(it.id)] = mr
	k := 0
	in.muSet(mr, st, func() *T {
		k++
		return in.res(it, fmt.Sprint(nres+k-1))
	})
	out := make([]*T, nres)
	for i := range out {
		out[i] = in.res(it, fmt.Sprint(i))
	}
	return out
}

func (in *Interp) muBuild(mr *muRec, roots, args []*T, objs []types.Object, st *State, pos token.Pos, run func(args []*T, st *State) []*T) {
	saved := *in
	mr.entry = st.clone()
	mr.entry.defers = nil
	mr.entry.pc = nil
	cells := map[int]bool{}
	seen := map[*T]bool{}
	for _, r := range append(append([]*T{}, roots...), args...) {
		in.shared(st, r, cells, seen)
	}
	in.muDepth++
	if in.muOrig == nil {
		in.muOrig = map[string]*T{}
	}
	prefix := fmt.Sprintf("mu%d.", len(in.mus))
	for round := 0; round < 30; round++ {
		mr.cells = sortedKeys(cells)
		mr.grew = false
		in.published, in.stored = copyPos(saved.published), copyPos(saved.stored)
		in.bvStack = nil
		in.undecided = nil
		var items []*Item
		in.trace = &items
		s := mr.entry.clone()
		n := 0
		in.muSet(mr, s, func() *T {
			n++
			return Sym(fmt.Sprintf("%ss%d", prefix, n-1))
		})
		before := s.clone()
		as := make([]*T, len(args))
		k := 0
		mr.sum.params = nil
		for i, x := range args {
			var o types.Object
			if i < len(objs) {
				o = objs[i]
			}
			if in.pinnedArg(x, o) {
				as[i] = x
				continue
			}
			p := fmt.Sprintf("%sp%d", prefix, k)
			k++
			in.muOrig[p] = in.freeze(mr.entry, x, false, pos)
			as[i] = Sym(p)
			if o != nil && x.op == OStruct {
				if _, ok := under(o.Type()).(*types.Struct); ok {
					as[i] = symTree(o.Type(), p)
				}
			}
			if x.op == OSym && x.k == "ctx" {
				as[i] = x
			}
			mr.sum.params = append(mr.sum.params, p)
		}
		q := in.quiet
		in.quiet = 0
		res := run(as, s)
		in.quiet = q
		for i := range res {
			res[i] = in.freeze(s, res[i], false, pos)
		}
		grew := false
		leaves := in.muLeaves(mr, s, &grew)
		for c, v := range s.m {
			if _, ok := before.m[c]; ok && before.m[c] != v && !cells[c] {
				cells[c] = true
				grew = true
			}
		}
		g := false
		orig := in.muLeaves(mr, mr.entry, &g)
		for i := 0; i < n; i++ {
			p := fmt.Sprintf("%ss%d", prefix, i)
			mr.sum.params = append(mr.sum.params, p)
			if i < len(orig) {
				in.muOrig[p] = orig[i]
			}
		}
		mr.sum.items = items
		mr.sum.res = append(res, leaves...)
		mr.sum.und = in.undecided
		if s.dead {
			mr.sum.und = append(mr.sum.und, Note{pos: pos, msg: "recursion without an end", lossy: true})
		}
		if !grew && !mr.grew {
			break
		}
		if round == 29 {
			mr.sum.und = append(mr.sum.und, Note{pos: pos, msg: "recursive call did not stabilise", lossy: true})
		}
	}
	mr.sum.nItems = countItems(mr.sum.items)
	in.muDepth--
	in.trace, in.bvStack, in.undecided = saved.trace, saved.bvStack, saved.undecided
	in.published, in.stored = saved.published, saved.stored
}

// muEvent evaluates a recursive call.
func (m *Machine) muEvent(it *Item, args []Val, r *frameRun) map[string]Val {
	syms := map[string]Val{}
	for k, v := range r.env.sym {
		syms[k] = v
	}
	for i, p := range it.mu.params {
		if i < len(args) {
			syms[p] = args[i]
			if sv, ok := args[i].(*SV); ok {
				bindTree(syms, sv.typ, p, args[i])
				syms[p] = args[i]
			}
		}
	}
	res, _, stop := m.Call(it.mu, syms)
	if stop != nil {
		panic(stop)
	}
	out := map[string]Val{}
	for i, v := range res {
		out[fmt.Sprint(i)] = v
	}
	return out
}
