package main

// What a path's constraints say about single terms: a constant, a range or an
// excluded boundary. Conditions that follow from it are decided without a query.

type rng struct {
	ulo, uhi uint64
	slo, shi int64
}

func fullRng(w uint8) rng {
	if w >= 64 {
		return rng{0, ^uint64(0), -1 << 63, 1<<63 - 1}
	}
	return rng{0, mask(w), -(int64(1) << (w - 1)), int64(1)<<(w-1) - 1}
}

// norm makes the signed and the unsigned bounds agree
func (r rng) norm(w uint8) rng {
	max := int64(mask(w) >> 1)
	if r.uhi <= uint64(max) {
		if int64(r.ulo) > r.slo {
			r.slo = int64(r.ulo)
		}
		if int64(r.uhi) < r.shi {
			r.shi = int64(r.uhi)
		}
	}
	if r.slo >= 0 {
		if uint64(r.slo) > r.ulo {
			r.ulo = uint64(r.slo)
		}
		if uint64(r.shi) < r.uhi {
			r.uhi = uint64(r.shi)
		}
	}
	return r
}

func (m *Machine) bounds(t *Term) rng {
	if t.op == OpConst {
		s := t.Signed()
		return rng{t.c, t.c, s, s}
	}
	r, ok := m.rngs[t]
	if !ok {
		r = fullRng(t.w)
	}
	if t.op == OpZExt {
		i := m.bounds(t.a)
		if i.ulo > r.ulo {
			r.ulo = i.ulo
		}
		if i.uhi < r.uhi {
			r.uhi = i.uhi
		}
		r = r.norm(t.w)
	}
	return r
}

func (m *Machine) narrow(t *Term, r rng) {
	if t.op == OpConst || t.w == 0 {
		return
	}
	r = r.norm(t.w)
	m.rngs[t] = r
	if t.op == OpZExt {
		i := m.bounds(t.a)
		if r.ulo > i.ulo {
			i.ulo = r.ulo
		}
		if r.uhi < i.uhi {
			i.uhi = r.uhi
		}
		m.narrow(t.a, i)
	}
}

// learn records the consequences of c being v
func (m *Machine) learn(c *Term, v bool) {
	switch c.op {
	case OpNot:
		m.learn(c.a, !v)
	case OpAnd:
		if v {
			m.vis[c.a], m.vis[c.b] = true, true
			m.learn(c.a, true)
			m.learn(c.b, true)
		}
	case OpOr:
		if !v {
			m.vis[c.a], m.vis[c.b] = false, false
			m.learn(c.a, false)
			m.learn(c.b, false)
		}
	case OpEq:
		if c.a.w == 0 {
			return
		}
		a, b := c.a, c.b
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op != OpConst {
			return
		}
		if v {
			s := b.Signed()
			m.narrow(a, rng{b.c, b.c, s, s})
			return
		}
		r := m.bounds(a)
		s := b.Signed()
		if r.ulo == b.c && r.ulo < r.uhi {
			r.ulo++
		}
		if r.uhi == b.c && r.ulo < r.uhi {
			r.uhi--
		}
		if r.slo == s && r.slo < r.shi {
			r.slo++
		}
		if r.shi == s && r.slo < r.shi {
			r.shi--
		}
		m.narrow(a, r)
	case OpULt, OpULe, OpSLt, OpSLe:
		m.learnLess(c, v)
	}
}

func (m *Machine) learnLess(c *Term, v bool) {
	a, b := c.a, c.b
	strict := c.op == OpULt || c.op == OpSLt
	if !v { // !(a < b) is b <= a
		a, b = b, a
		strict = !strict
	}
	ra, rb := m.bounds(a), m.bounds(b)
	if c.op == OpULt || c.op == OpULe {
		hi, lo := rb.uhi, ra.ulo
		if strict {
			if hi == 0 || lo == ^uint64(0) {
				return // infeasible
			}
			hi--
			lo++
		}
		if hi < ra.uhi {
			ra.uhi = hi
		}
		if lo > rb.ulo {
			rb.ulo = lo
		}
		if ra.ulo > ra.uhi || rb.ulo > rb.uhi {
			return
		}
	} else {
		hi, lo := rb.shi, ra.slo
		if strict {
			if hi == -1<<63 || lo == 1<<63-1 {
				return
			}
			hi--
			lo++
		}
		if hi < ra.shi {
			ra.shi = hi
		}
		if lo > rb.slo {
			rb.slo = lo
		}
		if ra.slo > ra.shi || rb.slo > rb.shi {
			return
		}
	}
	m.narrow(a, ra)
	m.narrow(b, rb)
}

// follows decides a condition from what is known about its parts
func (m *Machine) follows(c *Term, budget int) (v, known bool) {
	if c.op == OpConst {
		return c.c == 1, true
	}
	if v, ok := m.vis[c]; ok {
		return v, true
	}
	if budget == 0 {
		return false, false
	}
	switch c.op {
	case OpNot:
		v, known = m.follows(c.a, budget-1)
		return !v, known
	case OpAnd, OpOr:
		absorbing := c.op == OpOr
		x, kx := m.follows(c.a, budget-1)
		if kx && x == absorbing {
			return absorbing, true
		}
		y, ky := m.follows(c.b, budget-1)
		if ky && y == absorbing {
			return absorbing, true
		}
		return !absorbing, kx && ky
	case OpIte:
		x, kx := m.follows(c.a, budget-1)
		if !kx {
			return false, false
		}
		if x {
			return m.follows(c.b, budget-1)
		}
		return m.follows(c.d, budget-1)
	case OpEq:
		if c.a.w == 0 {
			x, kx := m.follows(c.a, budget-1)
			y, ky := m.follows(c.b, budget-1)
			return x == y, kx && ky
		}
		a, b := m.bounds(c.a), m.bounds(c.b)
		if a.uhi < b.ulo || b.uhi < a.ulo || a.shi < b.slo || b.shi < a.slo {
			return false, true
		}
		if a.ulo == a.uhi && b.ulo == b.uhi && a.ulo == b.ulo {
			return true, true
		}
	case OpULt, OpULe:
		a, b := m.bounds(c.a), m.bounds(c.b)
		if a.uhi < b.ulo || c.op == OpULe && a.uhi == b.ulo {
			return true, true
		}
		if b.uhi < a.ulo || c.op == OpULt && b.uhi == a.ulo {
			return false, true
		}
	case OpSLt, OpSLe:
		a, b := m.bounds(c.a), m.bounds(c.b)
		if a.shi < b.slo || c.op == OpSLe && a.shi == b.slo {
			return true, true
		}
		if b.shi < a.slo || c.op == OpSLt && b.shi == a.slo {
			return false, true
		}
	}
	return false, false
}
