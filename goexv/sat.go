package main

// sat decides small clause sets by unit propagation and branching. It is the
// decision procedure for formulas obtained from clause schemas.
type sat struct {
	n      int
	cls    [][]int
	occ    [][]int // by literal index: clauses containing the literal
	val    []int8
	trail  []int
	bad    bool // contains an empty clause
	units  []int
	keep   bool
	budget int

	full  *sat // with the clauses of fullS, see formulaTruth
	fullS [][]int
}

func lidx(l int) int {
	if l > 0 {
		return 2 * l
	}
	return -2*l + 1
}

func newSat(sets ...[][]int) *sat { return newSatN(0, sets...) }

// newSatN allocates at least n variables.
func newSatN(n int, sets ...[][]int) *sat {
	s := &sat{budget: 2000000, n: n}
	for _, cs := range sets {
		for _, c := range cs {
			for _, l := range c {
				if l > s.n {
					s.n = l
				}
				if -l > s.n {
					s.n = -l
				}
			}
		}
	}
	s.occ = make([][]int, 2*s.n+2)
	s.val = make([]int8, s.n+1)
	cnt := make([]int, 2*s.n+2)
	total, ncl := 0, 0
	for _, cs := range sets {
		ncl += len(cs)
		for _, c := range cs {
			for _, l := range c {
				cnt[lidx(l)]++
				total++
			}
		}
	}
	back := make([]int, total)
	for i, k := range cnt {
		s.occ[i], back = back[:0:k], back[k:]
	}
	s.cls = make([][]int, 0, ncl)
	for _, cs := range sets {
		for _, c := range cs {
			s.add(c)
		}
	}
	return s
}

func (s *sat) add(c []int) {
	if len(c) == 0 {
		s.bad = true
		return
	}
	for _, l := range c {
		if l == 0 {
			s.bad = true // not a literal
			return
		}
	}
	if len(c) == 1 {
		s.units = append(s.units, c[0])
	}
	id := len(s.cls)
	s.cls = append(s.cls, c)
	for _, l := range c {
		s.occ[lidx(l)] = append(s.occ[lidx(l)], id)
	}
}

func (s *sat) lit(l int) int8 {
	if l > 0 {
		if l > s.n {
			return 0
		}
		return s.val[l]
	}
	if -l > s.n {
		return 0
	}
	return -s.val[-l]
}

// assign sets l true and propagates; false on conflict.
func (s *sat) assign(ls ...int) bool {
	q := len(s.trail)
	for _, l := range ls {
		switch s.lit(l) {
		case 1:
			continue
		case -1:
			return false
		}
		s.set(l)
	}
	for ; q < len(s.trail); q++ {
		neg := -s.trail[q]
		for _, ci := range s.occ[lidx(neg)] {
			unit, sat, free := 0, false, 0
			for _, l := range s.cls[ci] {
				v := s.lit(l)
				if v == 1 {
					sat = true
					break
				}
				if v == 0 && l != unit {
					unit = l
					free++
					if free > 1 {
						break
					}
				}
			}
			if sat || free > 1 {
				continue
			}
			if free == 0 {
				return false
			}
			s.set(unit)
		}
	}
	return true
}

func (s *sat) set(l int) {
	v := l
	if v < 0 {
		v = -v
	}
	if v > s.n {
		return
	}
	if l > 0 {
		s.val[v] = 1
	} else {
		s.val[v] = -1
	}
	s.trail = append(s.trail, l)
}

func (s *sat) undo(to int) {
	for len(s.trail) > to {
		l := s.trail[len(s.trail)-1]
		s.trail = s.trail[:len(s.trail)-1]
		if l < 0 {
			l = -l
		}
		s.val[l] = 0
	}
}

// model returns a satisfying valuation of variables 1..n, nil if there is none.
func (s *sat) model(n int) []bool {
	if s.bad {
		return nil
	}
	mark := len(s.trail)
	defer s.undo(mark)
	s.keep = true
	defer func() { s.keep = false }()
	if !s.assign(s.units...) || !s.search() {
		return nil
	}
	out := make([]bool, n)
	for i := range out {
		out[i] = i+1 <= s.n && s.val[i+1] == 1
	}
	return out
}

// solve decides satisfiability under assumptions, leaving no assignment.
func (s *sat) solve(assume ...int) bool {
	if s.bad {
		return false
	}
	mark := len(s.trail)
	defer s.undo(mark)
	if !s.assign(s.units...) || !s.assign(assume...) {
		return false
	}
	return s.search()
}

func (s *sat) search() bool {
	s.budget--
	if s.budget < 0 {
		fail("satisfiability budget exceeded")
	}
	// branch on a literal of an unsatisfied clause
	pick := 0
	for _, c := range s.cls {
		sat := false
		f := 0
		for _, l := range c {
			switch s.lit(l) {
			case 1:
				sat = true
			case 0:
				f = l
			}
			if sat {
				break
			}
		}
		if !sat {
			if f == 0 {
				return false
			}
			pick = f
			break
		}
	}
	if pick == 0 {
		return true
	}
	for _, l := range []int{pick, -pick} {
		mark := len(s.trail)
		if s.assign(l) && s.search() {
			if !s.keep {
				s.undo(mark)
			}
			return true
		}
		s.undo(mark)
	}
	return false
}
