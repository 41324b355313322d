package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// Finite instance families on which extracted schemas are decided.

func vectors(dim int) [][]int {
	out := [][]int{{}}
	for i := 0; i < dim; i++ {
		var nx [][]int
		for _, v := range out {
			for x := 0; x < 3; x++ {
				nx = append(nx, append(append([]int{}, v...), x))
			}
		}
		out = nx
	}
	return out
}

// spreadVecs picks n instances of the dimension with every number of undefined
// features among them.
func spreadVecs(dim, n int, seed int64) [][]int {
	r := rand.New(rand.NewSource(seed))
	var out [][]int
	for i := 0; len(out) < n; i++ {
		v := make([]int, dim)
		p := r.Perm(dim)
		k := i
		if i > dim {
			k = r.Intn(dim + 1)
		} else if i%2 == 1 {
			k = dim - i/2
		} else {
			k = i / 2
		}
		for _, j := range p[:k] {
			v[j] = 1 + r.Intn(2)
		}
		out = append(out, v)
	}
	return out
}

// operandVals are the instances the variables of a formula range over: all of
// them, or a spread sample when the product would be too large.
func operandVals(dim, names int, thorough bool) [][]int {
	all := 1
	for i := 0; i < dim*names; i++ {
		all *= 3
	}
	lim := 20000
	if all <= lim {
		return vectors(dim)
	}
	n := []int{1, 600, 40, 12}[min(names, 3)]
	if thorough {
		n *= 2
	}
	return spreadVecs(dim, n, int64(dim)*31+int64(names))
}

func pickVecs(vs [][]int, n int, seed int64) [][]int {
	if len(vs) <= n {
		return vs
	}
	r := rand.New(rand.NewSource(seed))
	p := r.Perm(len(vs))
	out := [][]int{vs[0], vs[len(vs)-1]}
	for _, i := range p {
		if len(out) >= n {
			break
		}
		if i != 0 && i != len(vs)-1 {
			out = append(out, vs[i])
		}
	}
	return out
}

type tree struct {
	feat int // -1 for a leaf
	val  bool
	z, o *tree
}

func (t *tree) String() string {
	if t.feat < 0 {
		if t.val {
			return "+"
		}
		return "-"
	}
	return fmt.Sprintf("%d(%s,%s)", t.feat, t.z, t.o)
}

func allTrees(feats []int) []*tree {
	out := []*tree{{feat: -1}, {feat: -1, val: true}}
	for i, f := range feats {
		rest := append(append([]int{}, feats[:i]...), feats[i+1:]...)
		sub := allTrees(rest)
		for _, z := range sub {
			for _, o := range sub {
				out = append(out, &tree{feat: f, z: z, o: o})
			}
		}
	}
	return out
}

func randTree(r *rand.Rand, feats []int, pLeaf float64) *tree {
	if len(feats) == 0 || r.Float64() < pLeaf {
		return &tree{feat: -1, val: r.Intn(2) == 0}
	}
	i := r.Intn(len(feats))
	rest := append(append([]int{}, feats[:i]...), feats[i+1:]...)
	return &tree{feat: feats[i], z: randTree(r, rest, pLeaf+0.1), o: randTree(r, rest, pLeaf+0.1)}
}

func iota2(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

// layout numbers the nodes of a tree; the root is always 0.
func (t *tree) layout(mode int) []Node {
	var order []*tree
	switch mode {
	case 0: // pre-order
		var w func(x *tree)
		w = func(x *tree) {
			order = append(order, x)
			if x.feat >= 0 {
				w(x.z)
				w(x.o)
			}
		}
		w(t)
	case 1: // level order
		order = []*tree{t}
		for i := 0; i < len(order); i++ {
			if order[i].feat >= 0 {
				order = append(order, order[i].z, order[i].o)
			}
		}
	default: // children before parents, root first
		var w func(x *tree)
		w = func(x *tree) {
			if x.feat >= 0 {
				w(x.o)
				w(x.z)
			}
			if x != t {
				order = append(order, x)
			}
		}
		w(t)
		order = append([]*tree{t}, order...)
	}
	pos := map[*tree]int{}
	// equal subtrees may be shared: give every occurrence its own node
	out := make([]Node, 0, len(order))
	for i, x := range order {
		pos[x] = i
	}
	for i, x := range order {
		if x.feat < 0 {
			f := 0
			if mode == 1 {
				f = -1
			}
			out = append(out, Node{Value: x.val, Feat: f, ZChild: -1, OChild: -1})
		} else {
			out = append(out, Node{Value: mode == 2 && i%2 == 0, Feat: x.feat, ZChild: pos[x.z], OChild: pos[x.o]})
		}
	}
	return out
}

// copyTree unshares subtrees so that every occurrence is its own node.
func copyTree(t *tree) *tree {
	c := *t
	if t.feat >= 0 {
		c.z, c.o = copyTree(t.z), copyTree(t.o)
	}
	return &c
}

type model struct {
	dim   int
	t     *tree
	nodes []Node
	name  string
}

func mkModel(dim int, t *tree, mode int) *model {
	t = copyTree(t)
	return &model{dim, t, t.layout(mode), fmt.Sprintf("dim %d tree %s layout %d", dim, t, mode)}
}

// models lists decision trees of one dimension: all of them up to dimension 2,
// a sample above.
func models(dim, n int, seed int64) []*model {
	var out []*model
	if dim <= 2 {
		for i, t := range allTrees(iota2(dim)) {
			out = append(out, mkModel(dim, t, i%3))
			if dim == 2 && i%5 == 0 || dim == 1 {
				out = append(out, mkModel(dim, t, (i+1)%3), mkModel(dim, t, (i+2)%3))
			}
		}
		return out
	}
	r := rand.New(rand.NewSource(seed))
	// chains and complete trees first
	full := func(d int) *tree {
		var f func(i int) *tree
		f = func(i int) *tree {
			if i == d {
				return &tree{feat: -1, val: r.Intn(2) == 0}
			}
			return &tree{feat: i, z: f(i + 1), o: f(i + 1)}
		}
		return f(0)
	}
	chain := func(d int, zero bool) *tree {
		t := &tree{feat: -1, val: true}
		for i := 0; i < d; i++ {
			l := &tree{feat: -1, val: i%2 == 0}
			if zero {
				t = &tree{feat: i, z: t, o: l}
			} else {
				t = &tree{feat: i, z: l, o: t}
			}
		}
		return t
	}
	out = append(out, mkModel(dim, chain(dim, true), 0), mkModel(dim, chain(dim, false), 1))
	if dim <= 4 {
		out = append(out, mkModel(dim, full(dim), 2))
	}
	for len(out) < n {
		t := randTree(r, iota2(dim), 0.05)
		if t.feat < 0 {
			continue
		}
		out = append(out, mkModel(dim, t, len(out)%3))
	}
	return out
}

// nodeInstances are the partial instances of a tree's nodes.
func (t *tree) instances(dim int) [][]int {
	var out [][]int
	cur := make([]int, dim)
	var w func(x *tree)
	w = func(x *tree) {
		out = append(out, append([]int{}, cur...))
		if x.feat >= 0 {
			cur[x.feat] = 1
			w(x.z)
			cur[x.feat] = 2
			w(x.o)
			cur[x.feat] = 0
		}
	}
	w(t)
	return out
}

type leaf struct {
	cond []int
	val  bool
}

func (t *tree) leaves(dim int) []leaf {
	var out []leaf
	cur := make([]int, dim)
	var w func(x *tree)
	w = func(x *tree) {
		if x.feat < 0 {
			out = append(out, leaf{append([]int{}, cur...), x.val})
			return
		}
		cur[x.feat] = 1
		w(x.z)
		cur[x.feat] = 2
		w(x.o)
		cur[x.feat] = 0
	}
	w(t)
	return out
}

func perms(n int) [][]int {
	out := [][]int{{}}
	var rec func(cur []int, used int)
	rec = func(cur []int, used int) {
		for i := 0; i < n; i++ {
			if used&(1<<i) == 0 {
				c := append(append([]int{}, cur...), i)
				out = append(out, c)
				rec(c, used|1<<i)
			}
		}
	}
	rec(nil, 0)
	return out
}

func vecStr(v []int) string {
	var sb strings.Builder
	for _, x := range v {
		sb.WriteByte("_01?"[x&3])
	}
	return sb.String()
}

// specifications of the atomic formulas

func isFullV(v []int) bool {
	for _, x := range v {
		if x == 0 {
			return false
		}
	}
	return true
}

func bots(v []int) int {
	n := 0
	for _, x := range v {
		if x == 0 {
			n++
		}
	}
	return n
}

func hamming(a, b []int) int {
	n := 0
	for i := range a {
		if a[i] != b[i] {
			n++
		}
	}
	return n
}

func eqV(a, b []int) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type specIn struct {
	v    [][]int
	m    *model
	flag bool // LeafValue
	pref []int
}

var specs = map[string]func(x specIn) bool{
	"subsumption": func(x specIn) bool {
		for i, a := range x.v[0] {
			if a != 0 && x.v[1][i] != a {
				return false
			}
		}
		return true
	},
	"lel":  func(x specIn) bool { return bots(x.v[0]) >= bots(x.v[1]) },
	"full": func(x specIn) bool { return isFullV(x.v[0]) },
	"cons": func(x specIn) bool {
		for i, a := range x.v[0] {
			if b := x.v[1][i]; a != 0 && b != 0 && a != b {
				return false
			}
		}
		return true
	},
	"isnode": func(x specIn) bool {
		for _, n := range x.m.t.instances(x.m.dim) {
			if eqV(n, x.v[0]) {
				return true
			}
		}
		return false
	},
	"allcomp": func(x specIn) bool {
		for _, l := range x.m.t.leaves(x.m.dim) {
			ok := true
			for i, c := range l.cond {
				if c != 0 && x.v[0][i] != 0 && x.v[0][i] != c {
					ok = false
				}
			}
			if ok && l.val != x.flag {
				return false
			}
		}
		return true
	},
	"dfs": func(x specIn) bool {
		ls := x.m.t.leaves(x.m.dim)
		for _, a := range ls {
			for _, b := range ls {
				if a.val == b.val {
					continue
				}
				sep := false
				for i, e := range x.v[0] {
					if e != 0 && a.cond[i] != 0 && b.cond[i] != 0 && a.cond[i] != b.cond[i] {
						sep = true
					}
				}
				if !sep {
					return false
				}
			}
		}
		return true
	},
	"hepr": func(x specIn) bool {
		for _, i := range x.pref {
			a, b := x.v[0][i] != 0, x.v[1][i] != 0
			if a != b {
				return a
			}
		}
		return true
	},
	"leh": func(x specIn) bool {
		return isFullV(x.v[0]) && isFullV(x.v[1]) && isFullV(x.v[2]) &&
			hamming(x.v[0], x.v[1]) <= hamming(x.v[0], x.v[2])
	},
}
