package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
)

// check ends the demonstration with a failure unless ok holds.
func check(ok bool, format string, args ...any) {
	if !ok {
		fmt.Printf("BROKEN: "+format+"\n", args...)
		os.Exit(1)
	}
}

type tree struct {
	dim   int
	nodes []query.Node
}

func (t tree) Dim() int            { return t.dim }
func (t tree) Nodes() []query.Node { return t.nodes }

// plain is a model of the given dimension with a single leaf.
func plain(dim int) tree {
	return tree{dim, []query.Node{{Value: true, ZChild: query.NoChild, OChild: query.NoChild}}}
}

func leaf(v bool) query.Node {
	return query.Node{Value: v, ZChild: query.NoChild, OChild: query.NoChild}
}

func split(feat, z, o int) query.Node {
	return query.Node{Feat: feat, ZChild: z, OChild: o}
}

// sat decides the clauses with a plain DPLL search.
func sat(clauses [][]int) bool {
	val := map[int]bool{}
	set := map[int]bool{}
	var solve func() bool
	solve = func() bool {
		var trail []int
		undo := func() {
			for _, v := range trail {
				delete(set, v)
			}
		}
		abs := func(l int) int {
			if l < 0 {
				return -l
			}
			return l
		}
		for {
			progress := false
			for _, c := range clauses {
				n, unit, done := 0, 0, false
				for _, l := range c {
					v := abs(l)
					if set[v] {
						if val[v] == (l > 0) {
							done = true
							break
						}
						continue
					}
					n++
					unit = l
				}
				if done {
					continue
				}
				if n == 0 {
					undo()
					return false
				}
				if n == 1 {
					v := abs(unit)
					set[v], val[v] = true, unit > 0
					trail = append(trail, v)
					progress = true
				}
			}
			if !progress {
				break
			}
		}
		pick := 0
		for _, c := range clauses {
			done := false
			free := 0
			for _, l := range c {
				v := abs(l)
				if set[v] {
					if val[v] == (l > 0) {
						done = true
						break
					}
				} else if free == 0 {
					free = v
				}
			}
			if !done && free != 0 {
				pick = free
				break
			}
		}
		if pick == 0 {
			undo()
			return true
		}
		for _, b := range []bool{true, false} {
			set[pick], val[pick] = true, b
			if solve() {
				delete(set, pick)
				undo()
				return true
			}
			delete(set, pick)
		}
		undo()
		return false
	}
	return solve()
}

func all(c cnf.CNF) [][]int {
	var out [][]int
	s, k := c.Clauses()
	for _, x := range s {
		out = append(out, x)
	}
	for _, x := range k {
		out = append(out, x)
	}
	return out
}

// holds tells whether q is satisfiable when the variables in vals are declared
// and fixed to the given values.
func holds(m query.Model, q logop.LogOpQ, vals map[string]string) bool {
	ctx := query.BasicQContext(m)
	var names []string
	for n := range vals {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		q = logop.WithVar{I: query.QVar(n), Q: q}
	}
	c, err := q.Encoding(ctx)
	check(err == nil, "unexpected error: %v", err)
	return sat(append(all(c), fix(ctx, vals)...))
}

// fix returns unit clauses that give the variables their values.
func fix(ctx query.QContext, vals map[string]string) [][]int {
	var out [][]int
	for n, s := range vals {
		for i, f := range fv(s) {
			out = append(out, []int{ctx.CNFVar(query.QVar(n), i, int(f))})
		}
	}
	return out
}

// fv parses values written as in "_01".
func fv(s string) []query.FeatV {
	out := []query.FeatV{}
	for _, r := range s {
		switch r {
		case '_':
			out = append(out, query.BOT)
		case '0':
			out = append(out, query.ZERO)
		case '1':
			out = append(out, query.ONE)
		}
	}
	return out
}

func con(id, s string) query.QConst { return query.QConst{ID: id, Val: fv(s)} }

func gen1(p string) func(query.QVar) query.QVar {
	return func(v query.QVar) query.QVar { return query.QVar(p) + v }
}

func gen2(p string) func(a, b query.QVar) query.QVar {
	return func(a, b query.QVar) query.QVar {
		if b < a {
			a, b = b, a
		}
		return query.QVar(p) + a + "#" + b
	}
}

func gen3(p, a, b query.QVar) query.QVar { return "rank#" + p + "#" + a + "#" + b }

// instances lists every partial instance of the dimension.
func instances(dim int) []string {
	out := []string{""}
	for i := 0; i < dim; i++ {
		var next []string
		for _, s := range out {
			next = append(next, s+"_", s+"0", s+"1")
		}
		out = next
	}
	return out
}

// The demonstration doubles as its own solver: started with DEMO_SOLVER set it
// answers the DIMACS file it is given. "solve" decides it; "exit N TEXT" prints
// TEXT and exits with N.
func init() {
	mode := os.Getenv("DEMO_SOLVER")
	if mode == "" {
		return
	}
	if mode != "solve" {
		var code int
		f := strings.SplitN(mode, " ", 3)
		fmt.Sscan(f[1], &code)
		if len(f) > 2 {
			fmt.Println(f[2])
		}
		os.Exit(code)
	}
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		os.Exit(3)
	}
	var clauses [][]int
	var n int
	for _, l := range strings.Split(string(b), "\n") {
		if l == "" || l[0] == 'c' {
			continue
		}
		if l[0] == 'p' {
			var k int
			fmt.Sscanf(l, "p cnf %d %d", &n, &k)
			continue
		}
		var c []int
		for _, w := range strings.Fields(l) {
			var x int
			fmt.Sscan(w, &x)
			if x != 0 {
				c = append(c, x)
			}
		}
		clauses = append(clauses, c)
	}
	if !sat(clauses) {
		fmt.Println("s UNSATISFIABLE")
		os.Exit(20)
	}
	fmt.Println("s SATISFIABLE")
	for v := 1; v <= n; v++ {
		lit := -v
		if !sat(append(clauses[:len(clauses):len(clauses)], []int{-v})) {
			lit = v
		}
		clauses = append(clauses, []int{lit})
		fmt.Println("v", lit)
	}
	fmt.Println("v 0")
	os.Exit(10)
}

// solver is the path of the demonstration itself; mode says how it behaves.
func solver(mode string) string {
	os.Setenv("DEMO_SOLVER", mode)
	p, err := os.Executable()
	check(err == nil, "no executable: %v", err)
	return p
}

var _ = logop.And{}
