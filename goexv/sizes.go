package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/rand"
	"sort"
	"strings"
)

// Sizes at which the source itself suggests that something may change: the
// integer constants that occur in arithmetic, comparisons, declarations, array
// lengths and the like, the widths of shifted integers, and the ranges of
// narrow integers that wider ones are converted to. The instance families are
// extended to just around these sizes.

// sizes lists them, between 5 and limit, for the packages with the short names.
func (a *Analyzer) sizes(limit int, pkgs ...string) []int {
	want := map[string]bool{}
	for _, p := range pkgs {
		want[p] = true
	}
	set := map[int]bool{}
	add := func(ns ...int) {
		for _, n := range ns {
			if n >= 5 && n <= limit {
				set[n] = true
			}
		}
	}
	for path, p := range a.prog.Pkgs {
		if !want[path[strings.LastIndex(path, "/")+1:]] {
			continue
		}
		for _, f := range p.Files {
			var stack []ast.Node
			ast.Inspect(f, func(n ast.Node) bool {
				if n == nil {
					stack = stack[:len(stack)-1]
					return true
				}
				stack = append(stack, n)
				e, ok := n.(ast.Expr)
				if !ok {
					return true
				}
				tv := p.Info.Types[e]
				if tv.Type == nil {
					return true
				}
				if b, ok := n.(*ast.BinaryExpr); ok && b.Op == token.SHL && tv.Value == nil {
					add(widths(tv.Type)...)
				}
				if c, ok := n.(*ast.CallExpr); ok && len(c.Args) == 1 && p.Info.Types[c.Fun].IsType() && tv.Value == nil {
					if at := p.Info.Types[c.Args[0]].Type; at != nil && isInteger(at) {
						add(ranges(tv.Type)...)
					}
				}
				if tv.Value == nil || tv.Value.Kind() != constant.Int || len(stack) < 2 {
					return true
				}
				if b, ok := under(tv.Type).(*types.Basic); ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int32 || b.Kind() == types.UntypedRune) {
					return true
				}
				if c, ok := stack[len(stack)-2].(*ast.CallExpr); ok && c.Fun != n {
					if std := outside(a, p.Info, c.Fun); std {
						return true
					}
				}
				if v, ok := constant.Int64Val(tv.Value); ok && v < int64(limit) && v > -int64(limit) {
					if v < 0 {
						v = -v
					}
					add(int(v))
				}
				return true
			})
		}
	}
	var out []int
	for n := range set {
		out = append(out, n)
	}
	sort.Ints(out)
	return out
}

// outside tells whether a call goes to a function of another module.
func outside(a *Analyzer, info *types.Info, fun ast.Expr) bool {
	var o types.Object
	switch f := ast.Unparen(fun).(type) {
	case *ast.Ident:
		o = info.Uses[f]
	case *ast.SelectorExpr:
		o = info.Uses[f.Sel]
	}
	fn, ok := o.(*types.Func)
	return ok && fn.Pkg() != nil && a.prog.Pkgs[fn.Pkg().Path()] == nil
}

func isInteger(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// widths are the shift counts that leave an integer type.
func widths(t types.Type) []int {
	switch intKind(t) {
	case "u8", "i8":
		return []int{8}
	case "u16", "i16":
		return []int{16}
	case "u32", "i32":
		return []int{32}
	}
	return []int{64}
}

// ranges are the numbers that leave a narrow integer type.
func ranges(t types.Type) []int {
	switch intKind(t) {
	case "u8":
		return []int{256}
	case "i8":
		return []int{128}
	}
	return nil
}

// around extends sizes to what may lie on either side of them.
func around(ns []int) []int {
	set := map[int]bool{}
	for _, n := range ns {
		set[n], set[n+1], set[n+2] = true, true, true
	}
	var out []int
	for n := range set {
		out = append(out, n)
	}
	sort.Ints(out)
	return out
}

// wideVecs are instances of a large dimension: few, but with neighbours that
// differ in one feature near either end.
func wideVecs(dim, n int, seed int64) [][]int {
	r := rand.New(rand.NewSource(seed))
	full := make([]int, dim)
	for i := range full {
		full[i] = 1 + r.Intn(2)
	}
	with := func(v []int, at, val int) []int {
		w := append([]int{}, v...)
		w[at] = val
		return w
	}
	half := append([]int{}, full...)
	for i := range half {
		if r.Intn(2) == 0 {
			half[i] = 0
		}
	}
	other := append([]int{}, full...)
	for i := range other {
		other[i] = 3 - other[i]
	}
	none := make([]int, dim)
	out := [][]int{full, with(full, dim-1, 0), with(full, dim-1, 3-full[dim-1]), with(none, dim-1, full[dim-1]), none, half, other,
		with(full, 0, 0), with(half, dim-1, 3-full[dim-1]), with(half, dim-1, 0), with(full, dim-2, 3-full[dim-2])}
	if len(out) > n {
		out = out[:n]
	}
	return out
}

// wideTree grows a tree over many features with about n leaves.
func wideTree(r *rand.Rand, dim, n int) *tree {
	root := &tree{feat: -1}
	type open struct {
		t    *tree
		used map[int]bool
	}
	ls := []open{{root, map[int]bool{}}}
	for k := 0; k+1 < n && len(ls) > 0; k++ {
		i := r.Intn(len(ls))
		l := ls[i]
		ls = append(ls[:i], ls[i+1:]...)
		f := r.Intn(dim)
		for l.used[f] {
			f = (f + 1) % dim
		}
		u := map[int]bool{f: true}
		for g := range l.used {
			u[g] = true
		}
		l.t.feat, l.t.z, l.t.o = f, &tree{feat: -1}, &tree{feat: -1}
		for _, c := range []*tree{l.t.z, l.t.o} {
			if len(u) < dim {
				ls = append(ls, open{c, u})
			}
		}
	}
	var color func(t *tree)
	color = func(t *tree) {
		if t.feat < 0 {
			t.val = r.Intn(2) == 0
			return
		}
		color(t.z)
		color(t.o)
	}
	color(root)
	return root
}

// wideChain is a path through all features in some order.
func wideChain(r *rand.Rand, dim int, mode int) *tree {
	p := r.Perm(dim)
	t := &tree{feat: -1, val: r.Intn(2) == 0}
	for i, f := range p {
		l := &tree{feat: -1, val: (i+mode)%2 == 0}
		if mode == 1 || mode == 2 && r.Intn(2) == 0 {
			t = &tree{feat: f, z: t, o: l}
		} else {
			t = &tree{feat: f, z: l, o: t}
		}
	}
	return t
}

func wideModels(dim int) []*model {
	r := rand.New(rand.NewSource(int64(dim)))
	out := []*model{mkModel(dim, wideChain(r, dim, 0), 0), mkModel(dim, wideChain(r, dim, 1), 1), mkModel(dim, wideChain(r, dim, 2), 2),
		mkModel(dim, wideTree(r, dim, min(dim, 24)), 0)}
	for _, m := range out {
		m.name = fmt.Sprintf("dim %d tree of %d nodes", dim, len(m.nodes))
	}
	return out
}

// treeVecs are instances around the nodes of a tree.
func treeVecs(m *model, n int) [][]int {
	r := rand.New(rand.NewSource(int64(len(m.nodes))))
	var out [][]int
	ns := m.t.instances(m.dim)
	for _, v := range pickVecs(ns, max(n/3, 3), int64(m.dim)) {
		out = append(out, v)
		w := append([]int{}, v...)
		i := r.Intn(m.dim)
		w[i] = (w[i] + 1) % 3
		out = append(out, w)
		full := append([]int{}, v...)
		for i := range full {
			if full[i] == 0 {
				full[i] = 1 + r.Intn(2)
			}
		}
		out = append(out, full)
	}
	last := ns[len(ns)-1]
	return append(out, last)
}

// wideInstances are instances of the component at the given dimensions.
func wideInstances(c *component, dims []int, thorough bool, emit func(*inst)) {
	for _, dim := range dims {
		ms := []*model{{dim: dim, name: fmt.Sprintf("dim %d", dim)}}
		if c.tree {
			ms = wideModels(dim)
		}
		for _, m := range ms {
			n := []int{11, 11, 11, 5}[len(c.ops)]
			if thorough && n == 5 {
				n = 8
			}
			vecs := wideVecs(dim, n, int64(dim)*7+1)
			if len(c.ops) == 3 {
				vecs = [][]int{vecs[0], vecs[2], wideVecs(dim, 11, int64(dim)*7+1)[10], wideVecs(dim, 11, int64(dim)*7+1)[6], vecs[1]}
			}
			if c.tree {
				vecs = append(treeVecs(m, 15), vecs[0], vecs[4])
			}
			prefs := [][]int{nil}
			if c.pref {
				up, down := iota2(dim), make([]int, dim)
				for i := range down {
					down[i] = dim - 1 - i
				}
				prefs = [][]int{up, down, {dim - 1}, append([]int{dim - 1}, iota2(dim-2)...)}
			}
			flags := []bool{false}
			if c.flag != "" {
				flags = []bool{false, true}
			}
			names := []string{"x", "y", "z"}
			if dim == 12 {
				for i := range names {
					names[i] = longName(names[i])
				}
			}
			var rec func(i int, vars []string, consts [][]int)
			rec = func(i int, vars []string, consts [][]int) {
				if i == len(c.ops) {
					for _, p := range prefs {
						for _, fl := range flags {
							emit(&inst{c: c, m: m, vars: append([]string{}, vars...), consts: append([][]int{}, consts...), flag: fl, pref: p, vecs: vecs})
						}
					}
					return
				}
				if c.ops[i].isVar {
					rec(i+1, append(vars, names[i]), append(consts, nil))
					return
				}
				for _, v := range vecs {
					rec(i+1, append(vars, ""), append(consts, v))
				}
			}
			rec(0, nil, nil)
		}
	}
}

// narrow reports the ranges of the narrow integer types the packages compute
// with: sizes at which such a number wraps around.
func (a *Analyzer) narrow(limit int, pkgs ...string) []int {
	want := map[string]bool{}
	for _, p := range pkgs {
		want[p] = true
	}
	set := map[int]bool{}
	for path, p := range a.prog.Pkgs {
		if !want[path[strings.LastIndex(path, "/")+1:]] {
			continue
		}
		see := func(t types.Type) {
			if t == nil || !isInteger(t) {
				return
			}
			n := 0
			switch intKind(t) {
			case "u8":
				n = 256
			case "i8":
				n = 128
			case "u16":
				n = 65536
			case "i16":
				n = 32768
			}
			if n > 0 && n <= limit {
				set[n] = true
			}
		}
		for _, f := range p.Files {
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.IncDecStmt:
					see(p.Info.Types[n.X].Type)
				case *ast.AssignStmt:
					if n.Tok != token.ASSIGN && n.Tok != token.DEFINE {
						see(p.Info.Types[n.Lhs[0]].Type)
					}
				case *ast.BinaryExpr:
					if tv := p.Info.Types[n]; tv.Value == nil && tv.Type != nil {
						see(tv.Type)
					}
				case *ast.CallExpr:
					if tv := p.Info.Types[n]; len(n.Args) == 1 && p.Info.Types[n.Fun].IsType() && tv.Value == nil {
						if at := p.Info.Types[n.Args[0]].Type; at != nil && isInteger(at) && (intKind(at) == "int" || intKind(at) == "i64" || intKind(at) == "") {
							see(tv.Type)
						}
					}
				}
				return true
			})
		}
	}
	var out []int
	for n := range set {
		out = append(out, n)
	}
	sort.Ints(out)
	return out
}

// wideForms are formulas of many clauses, long clauses and large variables.
func wideForms(ns []int) []form {
	var out []form
	two := func(n, off int) [][]int {
		var s [][]int
		for i := 0; i < n; i++ {
			s = append(s, []int{off + 2*i + 1, -(off + 2*i + 2)})
		}
		return s
	}
	alt := func(n, off int) []int {
		var c []int
		for i := 1; i <= n; i++ {
			if i%3 == 0 {
				c = append(c, -(off + i))
			} else {
				c = append(c, off+i)
			}
		}
		return c
	}
	back := func(cs [][]int) [][]int {
		var out [][]int
		for i := len(cs) - 1; i >= 0; i-- {
			var c []int
			for j := len(cs[i]) - 1; j >= 0; j-- {
				c = append(c, cs[i][j])
			}
			out = append(out, c)
		}
		return out
	}
	for _, n := range ns {
		from := len(out)
		var units, mixed [][]int
		for _, l := range alt(n, 0) {
			units = append(units, []int{l})
		}
		for i := 0; i < n; i++ {
			mixed = append(mixed, alt(1+i%4, 4*i))
		}
		out = append(out,
			form{two(n, 0), nil},
			form{units, [][]int{{n + 1, n + 2}}},
			form{[][]int{alt(n, 0)}, [][]int{{-1, n}}},
			form{[][]int{{1, 2}, {3}}, two(n, 2)},
			form{mixed, [][]int{alt(n, 1)}},
			form{append(two(n, 0), []int{}), nil},
			form{[][]int{{1, 2}, alt(n, 1), {-2, n + 1}}, nil},
		)
		for _, x := range out[from:] {
			out = append(out, form{back(x.s), back(x.c)})
		}
	}
	return append(out, form{[][]int{{70000, -40000}, {300}, {-65536, 130}}, [][]int{{33000, -70001}}}, form{[][]int{{1}, {-32768, 65537}}, nil})
}

// someValuations picks valuations of a formula with many variables: one that
// satisfies it, ones that falsify single clauses, and their neighbours.
func someValuations(n int, s, c [][]int, f func(p []bool) bool) {
	base := newSatN(n, s, c).model(n)
	if base == nil {
		base = newSatN(n, c).model(n)
	}
	if base == nil {
		return
	}
	stop := false
	try := func(p []bool) {
		if !stop && !f(p) {
			stop = true
		}
	}
	dup := func(p []bool) []bool { return append([]bool{}, p...) }
	falsify := func(p []bool, c []int) []bool {
		q := dup(p)
		for _, l := range c {
			if l > 0 {
				q[l-1] = false
			} else {
				q[-l-1] = true
			}
		}
		return q
	}
	ends := func(n int, g func(i int)) {
		step := max(n/24, 1)
		for i := 0; i < n; i++ {
			if i < 4 || i >= n-4 || i%step == 0 {
				g(i)
			}
		}
	}
	try(base)
	inv := dup(base)
	for i := range inv {
		inv[i] = !inv[i]
	}
	try(inv)
	try(make([]bool, n))
	ends(len(s), func(i int) {
		q := falsify(base, s[i])
		try(q)
		if len(s[i]) > 8 {
			ends(len(s[i]), func(j int) {
				x := dup(q)
				l := s[i][j]
				if l < 0 {
					l = -l
				}
				x[l-1] = !x[l-1]
				try(x)
			})
		}
	})
	ends(n, func(i int) {
		q := dup(base)
		q[i] = !q[i]
		try(q)
	})
	// all clauses false
	q := dup(base)
	for _, c := range s {
		q = falsify(q, c)
	}
	try(q)
}
