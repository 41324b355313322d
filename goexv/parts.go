package main

import "strings"

// parts adds to r the properties that it is composed of: a violation of any of
// them breaks r's property as well. Rules listed in except do not carry over.
func (a *Analyzer) parts(r *Report, ids []string, except ...string) {
	for _, id := range ids {
		s := a.reports[id]
		if s == nil {
			s = NewReport(id, "quick")
			s.decl, s.seed = r.decl, r.seed
			s.guard(id, func() { checks[id](a, s) })
			a.keep(s)
		}
		for k, v := range s.viol {
			carried := true
			for _, x := range except {
				carried = carried && !strings.HasPrefix(k, x)
			}
			if carried {
				r.bad("part "+id+": "+k, v.Func, v.Where, v.What)
			}
		}
		n := 0
		for _, x := range s.oblig {
			n += x
		}
		r.ok("part "+id, n)
		for k, x := range s.und {
			for ; x > 0; x-- {
				r.undecided(id + ": " + k)
			}
		}
		r.mu.Lock()
		for f := range s.funcs {
			r.funcs[f] = true
		}
		r.mu.Unlock()
	}
}

// keep remembers a report for the properties composed of it.
func (a *Analyzer) keep(r *Report) {
	if a.reports == nil {
		a.reports = map[string]*Report{}
	}
	a.reports[r.prop] = r
}
