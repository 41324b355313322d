package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// whole is a query of the library: an operator or quantifier over queries, or
// a predicate over variables and constants.
type whole struct {
	op   string // And Or Not WithVar ForAllGuarded, "" for a predicate
	kids []*whole
	id   string // bound name
	c    *component
	args []warg
	flag bool
	pref []int
}

type warg struct {
	id    string // variable, or constant bound by a guarded quantifier
	value []int  // constant
}

func (q *whole) String() string {
	switch q.op {
	case "":
		var ss []string
		for _, x := range q.args {
			if x.value != nil {
				ss = append(ss, vecStr(x.value))
			} else {
				ss = append(ss, x.id)
			}
		}
		s := q.c.String() + "(" + strings.Join(ss, ",") + ")"
		if q.c.flag != "" {
			s += fmt.Sprintf("=%v", q.flag)
		}
		if q.c.pref {
			s += fmt.Sprint(q.pref)
		}
		return s
	case "Not":
		return "not " + q.kids[0].String()
	case "And", "Or":
		return "(" + q.kids[0].String() + " " + strings.ToLower(q.op) + " " + q.kids[1].String() + ")"
	case "WithVar":
		return "some " + q.id + ". " + q.kids[0].String()
	}
	return "each node " + q.id + ". " + q.kids[0].String()
}

// value builds the library's query.
func (q *whole) value(a *Analyzer) Val {
	if q.op == "" {
		x := &inst{c: q.c, flag: q.flag, pref: q.pref, vars: make([]string, len(q.args)), consts: make([][]int, len(q.args)), gen: map[string]Val{}}
		for _, g := range q.c.gens {
			x.gen[g] = &FV{name: g, sym: q.c.pkg == "leh"}
		}
		v := x.value(a).(*SV)
		for i, o := range q.c.ops {
			if o.isVar {
				v = withField(v, o.field, q.args[i].id)
			} else {
				v = withField(v, o.field, a.qconst(q.args[i].id, q.args[i].value))
			}
		}
		return v
	}
	t := a.typeOf("query/logop", q.op)
	switch q.op {
	case "And", "Or":
		return mkStruct(t, map[string]Val{"Q1": q.kids[0].value(a), "Q2": q.kids[1].value(a)})
	case "Not":
		return mkStruct(t, map[string]Val{"Q": q.kids[0].value(a)})
	case "WithVar":
		return mkStruct(t, map[string]Val{"I": q.id, "Q": q.kids[0].value(a)})
	}
	return mkStruct(t, map[string]Val{"I": a.qconst(q.id, nil), "Q": q.kids[0].value(a)})
}

// truth evaluates the query by its meaning.
func (q *whole) truth(m *model, env map[string][]int) bool {
	bind := func(id string, v []int, k *whole) bool {
		old, had := env[id]
		env[id] = v
		ok := k.truth(m, env)
		if had {
			env[id] = old
		} else {
			delete(env, id)
		}
		return ok
	}
	switch q.op {
	case "":
		in := specIn{m: m, flag: q.flag, pref: q.pref}
		for i, x := range q.args {
			switch {
			case x.value != nil:
				in.v = append(in.v, x.value)
			case q.c.ops[i].isVar:
				in.v = append(in.v, env[x.id])
			default:
				in.v = append(in.v, env["constant "+x.id])
			}
		}
		return specs[q.c.pkg](in)
	case "Not":
		return !q.kids[0].truth(m, env)
	case "And":
		return q.kids[0].truth(m, env) && q.kids[1].truth(m, env)
	case "Or":
		return q.kids[0].truth(m, env) || q.kids[1].truth(m, env)
	case "WithVar":
		for _, v := range vectors(m.dim) {
			if bind(q.id, v, q.kids[0]) {
				return true
			}
		}
		return false
	}
	for _, v := range m.t.instances(m.dim) {
		if !bind("constant "+q.id, v, q.kids[0]) {
			return false
		}
	}
	return true
}

// weight estimates the size of the query's formula.
func (q *whole) weight(m *model) int {
	n := 0
	switch q.op {
	case "":
		n = 3 * m.dim * m.dim
		if q.c.tree {
			n = len(m.nodes) * m.dim
		}
		return n
	}
	for _, k := range q.kids {
		n += k.weight(m)
	}
	if q.op == "ForAllGuarded" {
		n *= len(m.nodes)
	}
	return n + 3*m.dim
}

// queryGen makes queries at random.
type queryGen struct {
	r      *rand.Rand
	cs     []*component
	m      *model
	vars   int // variables still to be declared
	guards int
	names  int
}

var varNames = []string{"x", "y", "z", "x_1", "v", "c", "x#0"}

func (g *queryGen) vec() []int {
	v := make([]int, g.m.dim)
	mode := g.r.Intn(3)
	for i := range v {
		if mode == 0 {
			v[i] = 1 + g.r.Intn(2)
		} else {
			v[i] = g.r.Intn(3)
		}
	}
	return v
}

// pick prefers the name bound last.
func (g *queryGen) pick(names []string) string {
	if g.r.Intn(2) == 0 {
		return names[len(names)-1]
	}
	return names[g.r.Intn(len(names))]
}

// atom applies a predicate to names in scope.
func (g *queryGen) atom(vars, consts []string) *whole {
	for {
		c := g.cs[g.r.Intn(len(g.cs))]
		q := &whole{c: c, flag: g.r.Intn(2) == 0}
		ok := true
		for _, o := range c.ops {
			switch {
			case o.isVar && len(vars) == 0:
				ok = false
			case o.isVar:
				q.args = append(q.args, warg{id: g.pick(vars)})
			case len(consts) > 0 && g.r.Intn(4) > 0:
				q.args = append(q.args, warg{id: g.pick(consts)})
			default:
				q.args = append(q.args, warg{value: g.vec()})
			}
		}
		if !ok {
			continue
		}
		if c.pref {
			p := g.r.Perm(g.m.dim)
			q.pref = p[:g.r.Intn(g.m.dim+1)]
		}
		return q
	}
}

// query makes a query over the names in scope. Under a negation variables are
// not declared: an instance of theirs is sought in any case.
func (g *queryGen) query(depth int, vars, consts []string, neg bool) *whole {
	if depth == 0 {
		return g.atom(vars, consts)
	}
	switch k := g.r.Intn(10); {
	case k < 3:
		op := []string{"And", "Or"}[g.r.Intn(2)]
		return &whole{op: op, kids: []*whole{g.query(depth-1, vars, consts, neg), g.query(depth-1, vars, consts, neg)}}
	case k < 5:
		return &whole{op: "Not", kids: []*whole{g.query(depth-1, vars, consts, true)}}
	case k < 7 && g.vars > 0 && !neg:
		g.vars--
		id := varNames[g.names%len(varNames)]
		g.names++
		return &whole{op: "WithVar", id: id, kids: []*whole{g.query(depth, append(append([]string{}, vars...), id), consts, neg)}}
	case k < 9 && g.guards > 0:
		g.guards--
		id := []string{"n", "c", "k"}[g.r.Intn(3)]
		return &whole{op: "ForAllGuarded", id: id, kids: []*whole{g.query(depth-1, vars, append(append([]string{}, consts...), id), neg)}}
	}
	return g.atom(vars, consts)
}

// start makes a query, often one with a quantifier or two on top.
func (g *queryGen) start(vars []string) *whole {
	guard := func(consts []string, f func(consts []string) *whole) *whole {
		g.guards--
		id := []string{"n", "c", "k"}[g.r.Intn(3)]
		return &whole{op: "ForAllGuarded", id: id, kids: []*whole{f(append(append([]string{}, consts...), id))}}
	}
	some := func(f func(vars []string) *whole) *whole {
		if g.vars == 0 {
			return f(vars)
		}
		g.vars--
		id := varNames[g.names%len(varNames)]
		g.names++
		return &whole{op: "WithVar", id: id, kids: []*whole{f(append(append([]string{}, vars...), id))}}
	}
	var q *whole
	switch g.r.Intn(9) {
	case 5:
		// a name declared again in an inner quantifier, where nothing uses it,
		// and used once that has ended
		q = guard(nil, func(cs []string) *whole {
			return some(func(vs []string) *whole {
				and := func(a, b *whole) *whole { return &whole{op: "And", kids: []*whole{a, b}} }
				in := guard(cs, func(cs []string) *whole {
					b := g.atom(vars, cs)
					if len(vs) == 0 {
						return b
					}
					return &whole{op: "WithVar", id: vs[len(vs)-1], kids: []*whole{b}}
				})
				return and(and(g.query(g.r.Intn(2), vs, cs, false), in), g.query(g.r.Intn(2), vs, cs, false))
			})
		})
	case 0, 1:
		q = guard(nil, func(cs []string) *whole {
			return some(func(vs []string) *whole { return g.query(g.r.Intn(3), vs, cs, false) })
		})
	case 2:
		q = guard(nil, func(cs []string) *whole {
			return some(func(vs []string) *whole {
				return guard(cs, func(cs []string) *whole { return g.query(g.r.Intn(2), vs, cs, false) })
			})
		})
	case 3:
		q = guard(nil, func(cs []string) *whole {
			return guard(cs, func(cs []string) *whole {
				return some(func(vs []string) *whole { return g.query(g.r.Intn(2), vs, cs, false) })
			})
		})
	case 4:
		// another quantifier after the first has ended
		q = guard(nil, func(cs []string) *whole {
			return some(func(vs []string) *whole { return g.query(g.r.Intn(2), vs, cs, false) })
		})
		q = &whole{op: []string{"And", "Or"}[g.r.Intn(2)], kids: []*whole{q, guard(nil, func(cs []string) *whole {
			return some(func(vs []string) *whole { return g.query(g.r.Intn(2), vs, cs, false) })
		})}}
	default:
		return g.query(1+g.r.Intn(3), vars, nil, false)
	}
	if g.r.Intn(2) == 0 {
		q = &whole{op: []string{"And", "Or"}[g.r.Intn(2)], kids: []*whole{q, g.query(g.r.Intn(2), vars, nil, false)}}
	}
	return q
}

// checkQueries decides P34.
func (a *Analyzer) checkQueries(r *Report) {
	r.reason = "The summaries of all operators, quantifiers and predicates, of the context, the formula writer, Step, Values and QDTFAtom.Sat are composed, with a decision procedure standing for the solver process, on queries made at random from the library's vocabulary and on random decision trees; several queries are evaluated one after the other with the same context and solver. The verdict must be the query's truth by its definition, and the values retrieved must make its body true. The families of P01-P12, P19-P21, P23, P24 and P26 are analysed as parts."
	_, fn, where := a.computeFn(r, "Solver", "Step")
	_, vfn, vwhere := a.computeFn(r, "Solver", "Values")
	_, sfn, swhere := a.computeFn(r, "QDTFAtom", "Sat")
	solver, err := a.newSolver()
	if err != nil {
		r.undecided(err.Error())
		return
	}
	var cs []*component
	for _, c := range a.components("subsumption", "lel", "full", "cons", "isnode", "allcomp", "dfs", "leh", "hepr") {
		if specs[c.pkg] != nil {
			cs = append(cs, c)
		}
	}
	n, most := 2500, 400
	if r.thorough() {
		n, most = 15000, 800
	}
	byDim := map[int][]*model{}
	for dim := 1; dim <= 4; dim++ {
		byDim[dim] = models(dim, 20, 11)
	}
	unsat := a.unsat()
	var jobs []func()
	for k := 0; k < n; k++ {
		k := k
		jobs = append(jobs, func() {
			rd := rand.New(rand.NewSource(int64(k)))
			dim := []int{1, 2, 2, 3, 3, 4}[k%6]
			m := byDim[dim][rd.Intn(len(byDim[dim]))]
			make1 := func() ([]string, *whole) {
				g := &queryGen{r: rd, cs: cs, m: m, vars: []int{0, 3, 3, 2, 1}[dim], guards: 2, names: rd.Intn(3)}
				var top []string
				for len(top) == 0 || g.vars > 0 && rd.Intn(2) == 0 {
					g.vars--
					top = append(top, varNames[g.names%len(varNames)])
					g.names++
				}
				left := g.vars
				q := g.start(top)
				for q.weight(m) > most {
					g.vars, g.guards = left, 2
					q = g.start(top)
				}
				return top, q
			}
			close := func(top []string, q *whole) *whole {
				for i := len(top) - 1; i >= 0; i-- {
					q = &whole{op: "WithVar", id: top[i], kids: []*whole{q}}
				}
				return q
			}
			w := a.newWorld(dim, a.nodeVals(m.nodes), a.realCtx())
			w.solver = solver
			w.atLeast = 50
			w.verdict = func(w *world, text string) (int64, string, bool) {
				code, out := solveLarge(text, int64(k*7+len(w.runs)))
				return code, out, false
			}
			top, body := make1()
			q := close(top, body)
			inst := fmt.Sprintf("%s, %s", q, m.name)
			var e Val
			stop := try(func() { e = w.doStep(q.value(a), ctxOV()) })
			r.use(w.m)
			if stop != nil {
				r.stop("whole query", fn, stop, inst)
				return
			}
			r.ok("verdict", 1)
			want := q.truth(m, map[string][]int{})
			switch {
			case e != nil && !veq(e, unsat):
				r.bad("whole query", fn, where, fmt.Sprintf("fails with %s (%s)", vkey(e), inst))
				return
			case (e == nil) != want:
				r.bad("whole query", fn, where, fmt.Sprintf("found %v, the query is satisfiable: %v (%s)", e == nil, want, inst))
				return
			}
			if e == nil {
				var v Val
				var names []Val
				for _, x := range top {
					names = append(names, x)
				}
				if stop := try(func() { v, e = w.doValues(names, ctxOV()) }); stop != nil {
					r.stop("whole query", vfn, stop, inst)
					return
				}
				if e != nil {
					r.bad("whole query", vfn, vwhere, fmt.Sprintf("no values for a satisfiable query: %s (%s)", vkey(e), inst))
					return
				}
				env := map[string][]int{}
				got := toSeq(v)
				if len(got) != len(top) {
					r.bad("whole query", vfn, vwhere, fmt.Sprintf("%d values for %d variables (%s)", len(got), len(top), inst))
					return
				}
				good := true
				var ss []string
				for i, x := range top {
					c := constVec(a, got[i])
					good = good && len(c) == dim
					env[x] = c
					ss = append(ss, x+"="+vecStr(c))
				}
				r.ok("values", 1)
				if !good || !body.truth(m, env) {
					r.bad("whole query", vfn, vwhere, fmt.Sprintf("values %s do not satisfy the query (%s)", strings.Join(ss, " "), inst))
					return
				}
			}
			// further queries, with the same context and solver
			for i := 0; i < 2; i++ {
				top, body := make1()
				q := close(top, body)
				neg := rd.Intn(2) == 0
				at := mkStruct(a.typeOf("compute", "QDTFAtom"), map[string]Val{"Query": q.value(a), "Negated": neg})
				inst := fmt.Sprintf("after %d others, %s, %s", i+1, q, m.name)
				var res, e Val
				if stop := try(func() { res, e = w.doSat(at, ctxOV(), w.solver) }); stop != nil {
					r.stop("whole query", sfn, stop, inst)
					return
				}
				r.ok("verdict", 1)
				want := q.truth(m, map[string][]int{}) != neg
				if e != nil || res != want {
					r.bad("whole query", sfn, swhere, fmt.Sprintf("answer %s, %s instead of %v (%s)", vkey(res), vkey(e), want, inst))
					return
				}
			}
		})
	}
	r.parallel(jobs)
	a.parts(r, []string{"P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P19", "P20", "P21", "P23", "P22", "P24", "P26"}, "empty stack")
}
