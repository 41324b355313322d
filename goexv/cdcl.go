package main

import "math/rand"

// cdcl is a clause-learning decision procedure for the larger formulas of
// whole queries. Literals are 2v and 2v+1 (negated).
type cdcl struct {
	n       int
	cls     [][]int
	watch   [][]int // clause numbers by literal
	val     []int8  // by variable: 0 open, 1 true, -1 false
	level   []int
	reason  []int
	trail   []int
	lim     []int
	head    int
	act     []float64
	inc     float64
	phase   []bool
	seen    []bool
	bad     bool
	budget  int
	pending []int
}

func newCDCL(n int, cs [][]int, seed int64) *cdcl {
	s := &cdcl{n: n, watch: make([][]int, 2*n+2), val: make([]int8, n+1), level: make([]int, n+1), reason: make([]int, n+1),
		act: make([]float64, n+1), inc: 1, phase: make([]bool, n+1), seen: make([]bool, n+1), budget: 300000}
	rd := rand.New(rand.NewSource(seed))
	for v := 1; v <= n; v++ {
		s.phase[v] = rd.Intn(2) == 0
		s.act[v] = rd.Float64() * 1e-3
	}
	for _, c := range cs {
		var lits []int
		has := map[int]bool{}
		taut := false
		for _, l := range c {
			if has[l] {
				continue
			}
			has[l] = true
			taut = taut || has[-l]
			if l > 0 {
				lits = append(lits, 2*l)
			} else {
				lits = append(lits, -2*l+1)
			}
		}
		if taut {
			continue
		}
		switch len(lits) {
		case 0:
			s.bad = true
		case 1:
			s.pending = append(s.pending, lits[0])
		default:
			s.attach(lits)
		}
	}
	return s
}

func (s *cdcl) attach(c []int) int {
	k := len(s.cls)
	s.cls = append(s.cls, c)
	s.watch[c[0]] = append(s.watch[c[0]], k)
	s.watch[c[1]] = append(s.watch[c[1]], k)
	return k
}

func (s *cdcl) lit(l int) int8 {
	if l&1 == 1 {
		return -s.val[l>>1]
	}
	return s.val[l>>1]
}

func (s *cdcl) enqueue(l, why int) bool {
	switch s.lit(l) {
	case 1:
		return true
	case -1:
		return false
	}
	v := l >> 1
	s.val[v] = 1
	if l&1 == 1 {
		s.val[v] = -1
	}
	s.level[v], s.reason[v] = len(s.lim), why
	s.trail = append(s.trail, l)
	return true
}

// propagate returns a conflicting clause or -1.
func (s *cdcl) propagate() int {
	for s.head < len(s.trail) {
		f := s.trail[s.head] ^ 1 // became false
		s.head++
		ws := s.watch[f]
		j := 0
		for i := 0; i < len(ws); i++ {
			k := ws[i]
			c := s.cls[k]
			if c[0] == f {
				c[0], c[1] = c[1], c[0]
			}
			if s.lit(c[0]) == 1 {
				ws[j] = k
				j++
				continue
			}
			moved := false
			for x := 2; x < len(c); x++ {
				if s.lit(c[x]) != -1 {
					c[1], c[x] = c[x], c[1]
					s.watch[c[1]] = append(s.watch[c[1]], k)
					moved = true
					break
				}
			}
			if moved {
				continue
			}
			ws[j] = k
			j++
			if !s.enqueue(c[0], k) {
				j += copy(ws[j:], ws[i+1:])
				s.watch[f] = ws[:j]
				return k
			}
		}
		s.watch[f] = ws[:j]
	}
	return -1
}

func (s *cdcl) cancel(lv int) {
	if len(s.lim) <= lv {
		return
	}
	for i := len(s.trail) - 1; i >= s.lim[lv]; i-- {
		v := s.trail[i] >> 1
		s.phase[v] = s.val[v] == 1
		s.val[v] = 0
	}
	s.trail = s.trail[:s.lim[lv]]
	s.lim = s.lim[:lv]
	s.head = len(s.trail)
}

func (s *cdcl) analyze(conf int) ([]int, int) {
	learnt := []int{0}
	n, p, i := 0, -1, len(s.trail)-1
	var touched []int
	for {
		for _, q := range s.cls[conf] {
			v := q >> 1
			if q == p || s.seen[v] || s.level[v] == 0 {
				continue
			}
			s.seen[v] = true
			touched = append(touched, v)
			s.act[v] += s.inc
			if s.level[v] == len(s.lim) {
				n++
			} else {
				learnt = append(learnt, q)
			}
		}
		for !s.seen[s.trail[i]>>1] {
			i--
		}
		p = s.trail[i]
		i--
		n--
		if n == 0 {
			break
		}
		conf = s.reason[p>>1]
	}
	learnt[0] = p ^ 1
	for _, v := range touched {
		s.seen[v] = false
	}
	s.inc *= 1.05
	if s.inc > 1e100 {
		for v := range s.act {
			s.act[v] *= 1e-100
		}
		s.inc *= 1e-100
	}
	back := 0
	for x := 1; x < len(learnt); x++ {
		if lv := s.level[learnt[x]>>1]; lv > back {
			back = lv
			learnt[1], learnt[x] = learnt[x], learnt[1]
		}
	}
	return learnt, back
}

// solve decides the formula; the assignment stays in val.
func (s *cdcl) solve() bool {
	if s.bad {
		return false
	}
	for _, l := range s.pending {
		if !s.enqueue(l, -1) {
			return false
		}
	}
	for {
		if conf := s.propagate(); conf >= 0 {
			if len(s.lim) == 0 {
				return false
			}
			s.budget--
			if s.budget < 0 {
				fail("satisfiability budget exceeded")
			}
			c, back := s.analyze(conf)
			s.cancel(back)
			k := -1
			if len(c) > 1 {
				k = s.attach(c)
			}
			s.enqueue(c[0], k)
			continue
		}
		best := 0
		for v := 1; v <= s.n; v++ {
			if s.val[v] == 0 && (best == 0 || s.act[v] > s.act[best]) {
				best = v
			}
		}
		if best == 0 {
			return true
		}
		s.lim = append(s.lim, len(s.trail))
		l := 2 * best
		if !s.phase[best] {
			l++
		}
		s.enqueue(l, -1)
	}
}

// solveLarge answers like solveText, for larger formulas.
func solveLarge(text string, seed int64) (code int64, out string) {
	nv, cls, ok := parseDIMACS(text)
	if !ok {
		return 1, "c parse error\n"
	}
	nv = max(nv, maxAbs(cls))
	s := newCDCL(nv, cls, seed)
	if !s.solve() {
		return 20, "c done\ns UNSATISFIABLE\n"
	}
	code, out, _ = s.answer(seed)
	return code, out
}

// answer prints the valuation found.
func (s *cdcl) answer(seed int64) (code int64, out string, cannot bool) {
	val := make([]int, s.n)
	for i := range val {
		val[i] = i + 1
		if s.val[i+1] < 0 {
			val[i] = -i - 1
		}
	}
	return 10, "c found\ns SATISFIABLE\n" + vLines(val, 5+int(seed%7)), false
}
