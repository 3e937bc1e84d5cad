package main

import (
	"math/rand"
	"sync/atomic"
	"testing"
)

// TestFollows compares the conclusions drawn from random facts about two
// 8-bit variables with all their values
func TestFollows(t *testing.T) {
	for seed := int64(0); seed < 4000; seed++ {
		r := rand.New(rand.NewSource(seed))
		m := &Machine{tb: NewTB(), vis: map[*Term]bool{}, rngs: map[*Term]rng{}}
		tb := m.tb
		x, y := tb.Var("x", 8), tb.Var("y", 8)
		val := func() *Term {
			switch r.Intn(7) {
			case 0, 1:
				return x
			case 2:
				return y
			case 3:
				return Const(8, []uint64{0, 1, 2, 127, 128, 129, 254, 255}[r.Intn(8)])
			}
			return Const(8, uint64(r.Intn(256)))
		}
		wide := func() *Term {
			if r.Intn(2) == 0 {
				return tb.Resize(val(), 16, false)
			}
			return Const(16, uint64(r.Intn(300)))
		}
		var cond func(d int) *Term
		cond = func(d int) *Term {
			a, b := val(), val()
			if r.Intn(4) == 0 {
				a, b = wide(), wide()
			}
			switch k := r.Intn(9); {
			case k == 0 && d > 0:
				return tb.And(cond(d-1), cond(d-1))
			case k == 1 && d > 0:
				return tb.Or(cond(d-1), cond(d-1))
			case k == 2 && d > 0:
				return tb.Not(cond(d - 1))
			case k == 3 && d > 0:
				return tb.Ite(cond(d-1), cond(d-1), cond(d-1))
			case k < 5:
				return tb.Eq(a, b)
			case k == 5:
				return tb.Bin(OpULt, a, b)
			case k == 6:
				return tb.Bin(OpULe, a, b)
			case k == 7:
				return tb.Bin(OpSLt, a, b)
			}
			return tb.Bin(OpSLe, a, b)
		}
		// the assignments that satisfy the facts so far
		type asg struct{ x, y uint64 }
		var sat []asg
		for i := uint64(0); i < 256; i++ {
			for j := uint64(0); j < 256; j += 5 {
				sat = append(sat, asg{i, j})
			}
		}
		eval := func(c *Term, a asg) bool {
			mod := &Model{vals: map[*Term]uint64{x: a.x, y: a.y}}
			mod.ver = atomic.AddInt64(&modelVer, 1)
			return mod.Eval(c) != 0
		}
		for i := 0; i < 6; i++ {
			c := cond(2)
			if v, ok := m.follows(c, 12); ok {
				for _, a := range sat {
					if eval(c, a) != v {
						t.Fatalf("seed %d: wrong conclusion at %v", seed, a)
					}
				}
				continue
			}
			var rest []asg
			for _, a := range sat {
				if eval(c, a) {
					rest = append(rest, a)
				}
			}
			if len(rest) == 0 {
				continue
			}
			sat = rest
			m.addPC(c)
		}
	}
}
