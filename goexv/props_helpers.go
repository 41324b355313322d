package main

import (
	"fmt"
	"go/types"
)

// P32: helpers on instances and nodes.

func (a *Analyzer) helper(r *Report, typ, name string) *types.Func {
	var fn *types.Func
	if typ == "" {
		fn = a.prog.Func("query", name)
	} else {
		fn = a.methodFn(a.typeOf("query", typ), name)
	}
	if fn == nil || a.prog.Funcs[fn] == nil {
		r.undecided("query." + typ + "." + name + " not found")
		return nil
	}
	return fn
}

func (a *Analyzer) checkHelpers(r *Report) {
	r.reason = "Every helper on partial instances and nodes is summarised to a term over its inputs; the term is compared with the definition for every instance (all values, all lengths up to the bound, all pairs for equality), every node child combination and every mix of constant lengths. Index obligations of the summaries are decided on the same family."
	maxDim := 5
	if r.thorough() {
		maxDim = 8
	}
	call := func(fn *types.Func, inst string, recv Val, args ...Val) (res []Val, ok bool) {
		r.guard(shortName(fn), func() {
			m := NewMachine(a, 1, nil)
			out, stop := a.callFn(m, fn, recv, args...)
			r.use(m)
			if stop != nil {
				r.stop("helper", shortName(fn), stop, inst)
				return
			}
			res, ok = out, true
		})
		return
	}
	expect := func(fn *types.Func, inst string, got, want Val) {
		r.ok(shortName(fn), 1)
		if !veq(got, want) {
			r.bad("helper", shortName(fn), a.posOf(fn), fmt.Sprintf("returns %s instead of %s for %s", vkey(got), vkey(want), inst))
		}
	}
	full, str, count := a.helper(r, "QConst", "IsFull"), a.helper(r, "QConst", "AsString"), a.helper(r, "QConst", "BotCount")
	eq, all, val := a.helper(r, "QConst", "EqualValue"), a.helper(r, "", "AllBotConst"), a.helper(r, "", "ValidateConstsDim")
	leaf := a.helper(r, "Node", "IsLeaf")

	big := append([]int{12, 20, 70, 130, 258, 300}, around(a.sizes(1000, "query"))...)
	dims := append(iota2(maxDim+1), big...)
	for _, n := range a.narrow(70000, "query") {
		dims = append(dims, n, n+1)
		if n < 1000 {
			big = append(big, n, n+1)
		}
	}
	done := map[string]bool{}
	for _, dim := range dims {
		seen := map[string]string{}
		var vs [][]int
		if dim <= maxDim {
			vs = vectors(dim)
		} else {
			vs = wideVecs(dim, max(2, min(11, 3000/dim)), int64(dim))
		}
		for k, v := range vs {
			if dim > maxDim {
				if vk := vecStr(v); done[vk] {
					continue
				} else {
					done[vk] = true
				}
			}
			id := []string{"", "c", "_01"}[k%3]
			q := a.qconst(id, v)
			inst := "instance " + vecStr(v)
			if full != nil {
				if res, ok := call(full, inst, q); ok {
					expect(full, inst, res[0], isFullV(v))
				}
			}
			if count != nil {
				if res, ok := call(count, inst, q); ok {
					expect(count, inst, res[0], int64(bots(v)))
				}
			}
			if str != nil {
				if res, ok := call(str, inst, q); ok {
					s, isS := res[0].(string)
					if !isS {
						r.undecided("AsString returns " + vkey(res[0]))
					} else {
						r.ok(shortName(str), 1)
						if o, dup := seen[s]; dup {
							r.bad("helper", shortName(str), a.posOf(str), fmt.Sprintf("renders both %s and %s as %q", o, vecStr(v), s))
						}
						seen[s] = vecStr(v)
					}
				}
			}
		}
	}
	if eq != nil {
		var vs [][]int
		top := 3
		if r.thorough() {
			top = 4
		}
		for d := 0; d <= top; d++ {
			vs = append(vs, vectors(d)...)
		}
		for i, v := range vs {
			for j, w := range vs {
				inst := fmt.Sprintf("%s and %s", vecStr(v), vecStr(w))
				x, y := a.qconst([]string{"", "c"}[i%2], v), a.qconst([]string{"", "c"}[j%2], w)
				if res, ok := call(eq, inst, x, y); ok {
					expect(eq, inst, res[0], len(v) == len(w) && eqV(v, w))
				}
			}
		}
		for _, dim := range big {
			ws := wideVecs(dim, 11, int64(dim))
			for i, v := range ws {
				w := append([]int{}, v...)
				others := [][]int{w, v[:dim-1], ws[(i+1)%len(ws)], ws[(i+2)%len(ws)], append(append([]int{}, v...), 0), nil}
				if dim > 256 {
					others = append(others, v[:dim-256])
				}
				for _, w := range others {
					inst := fmt.Sprintf("%s and %s", vecStr(v), vecStr(w))
					if res, ok := call(eq, inst, a.qconst("", v), a.qconst("", w)); ok {
						expect(eq, inst, res[0], len(v) == len(w) && eqV(v, w))
					}
				}
			}
		}
		for _, v := range vs[:4] {
			n := a.qconst("", nil)
			for sw := 0; sw < 2; sw++ {
				x, y := n, a.qconst("", v)
				if sw == 1 {
					x, y = y, x
				}
				if res, ok := call(eq, "an instance without value and "+vecStr(v), x, y); ok {
					expect(eq, "an instance without value and "+vecStr(v), res[0], len(v) == 0)
				}
			}
		}
	}
	if all != nil {
		for _, dim := range append(iota2(maxDim+5), big...) {
			inst := fmt.Sprintf("dimension %d", dim)
			if res, ok := call(all, inst, nil, int64(dim)); ok {
				q, isS := res[0].(*SV)
				if !isS {
					r.undecided("AllBotConst returns " + vkey(res[0]))
					continue
				}
				vals := toSeq(q.field("Val"))
				good := len(vals) == dim
				for _, v := range vals {
					good = good && veq(v, int64(0))
				}
				r.ok(shortName(all), 1)
				if !good {
					r.bad("helper", shortName(all), a.posOf(all), "returns "+vkey(q)+" for "+inst)
				}
			}
		}
	}
	if val != nil {
		for _, dim := range big {
			for _, n := range append([]int{1, 2, 20, 70}, around(a.sizes(300, "query"))...) {
				for _, l := range []int{dim, dim - 1, dim + 1, dim + 256, dim + 65536, 0} {
					if l > 3000 && n > 2 {
						continue
					}
					for _, at := range []int{0, n / 2, n - 1} {
						var cs []Val
						for i := 0; i < n; i++ {
							k := dim
							if i == at {
								k = l
							}
							cs = append(cs, a.qconst("", make([]int, k)))
						}
						inst := fmt.Sprintf("dimension %d and %d constants, one of length %d", dim, n, l)
						if res, ok := call(val, inst, nil, int64(dim), cs); ok {
							r.ok(shortName(val), 1)
							if (res[0] == nil) != (l == dim) {
								r.bad("helper", shortName(val), a.posOf(val), fmt.Sprintf("error %s for %s", vkey(res[0]), inst))
							}
						}
					}
				}
			}
		}
		lens := []int{0, 1, 2, 3, 4}
		for d := 0; d <= 4; d++ {
			for n := 0; n <= 3; n++ {
				idx := make([]int, n)
				for {
					var cs []Val
					good := true
					for _, i := range idx {
						cs = append(cs, a.qconst("", make([]int, lens[i])))
						good = good && lens[i] == d
					}
					var arg Val = cs
					if n == 0 {
						arg = nil
					}
					inst := fmt.Sprintf("dimension %d and lengths %v", d, idx)
					if res, ok := call(val, inst, nil, int64(d), arg); ok {
						r.ok(shortName(val), 1)
						if (res[0] == nil) != good {
							r.bad("helper", shortName(val), a.posOf(val), fmt.Sprintf("error %s for %s", vkey(res[0]), inst))
						}
					}
					k := 0
					for k < n {
						idx[k]++
						if idx[k] < len(lens) {
							break
						}
						idx[k] = 0
						k++
					}
					if k == n {
						break
					}
				}
			}
		}
	}
	if leaf != nil {
		ks := []int{-1, 0, 1, 2, 3, 127, 128, 254, 255, 256, 32767, 65535, 65536, 100000}
		for _, n := range around(a.sizes(1000, "query")) {
			ks = append(ks, n)
		}
		for _, z := range ks {
			for _, o := range ks {
				for f := -1; f <= 1; f++ {
					for _, v := range []bool{false, true} {
						n := Node{Value: v, Feat: f, ZChild: z, OChild: o}
						inst := fmt.Sprintf("node %+v", n)
						if res, ok := call(leaf, inst, a.nodeVals([]Node{n})[0]); ok {
							expect(leaf, inst, res[0], z == -1 || o == -1)
						}
					}
				}
			}
		}
	}
}

func (a *Analyzer) posOf(f *types.Func) string {
	_, w := a.fnWhere(f)
	return w
}
