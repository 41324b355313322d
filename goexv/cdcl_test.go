package main

import (
	"math/rand"
	"testing"
)

func TestCDCL(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for k := 0; k < 20000; k++ {
		n := 1 + r.Intn(9)
		var cs [][]int
		for i := r.Intn(5 * n); i >= 0; i-- {
			var c []int
			for j := 1 + r.Intn(3); j > 0; j-- {
				l := 1 + r.Intn(n)
				if r.Intn(2) == 0 {
					l = -l
				}
				c = append(c, l)
			}
			cs = append(cs, c)
		}
		if newCDCL(n, cs, int64(k)).solve() != newSatN(n, cs).solve() {
			t.Fatal(n, cs)
		}
	}
}
