package main

// Hash-consed SMT terms over Bool and fixed-width bit-vectors, with constant
// folding, light simplification, evaluation under a model and SMT-LIB output.

import (
	"fmt"
	"math/bits"
	"strings"
	"sync"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot // bool
	OpAnd // bool
	OpOr  // bool
	OpEq
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLShr
	OpAShr
	OpULt
	OpULe
	OpSLt
	OpSLe
	OpExtract // low bits [w-1:0] of a (lo given in c)
	OpZExt
	OpSExt
)

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv",
	OpSDiv: "bvsdiv", OpURem: "bvurem", OpSRem: "bvsrem", OpBAnd: "bvand",
	OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot", OpNeg: "bvneg",
	OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr", OpULt: "bvult",
	OpULe: "bvule", OpSLt: "bvslt", OpSLe: "bvsle",
}

// Term is an SMT term. w==0 means Bool (constants: c is 0/1).
type Term struct {
	op      Op
	w       uint8
	c       uint64
	name    string
	a, b, d *Term
	id      int32
	// evaluation memo
	mx   uint64
	mxok bool
	ev   uint64
	ver  int64
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

// constants are global and shared between workers
var (
	constSmall [65][1025]*Term
	constMu    sync.Mutex
	constBig   = map[[2]uint64]*Term{}
	True       *Term
	False      *Term
)

func init() {
	for _, w := range []uint8{0, 8, 16, 32, 64} {
		for i := 0; i < 1025; i++ {
			if w == 0 && i > 1 {
				break
			}
			constSmall[w][i] = &Term{op: OpConst, w: w, c: uint64(i), id: -1}
		}
	}
	False = constSmall[0][0]
	True = constSmall[0][1]
}

func Const(w uint8, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return True
		}
		return False
	}
	v &= mask(w)
	if v < 1025 && constSmall[w][v] != nil {
		return constSmall[w][v]
	}
	k := [2]uint64{uint64(w), v}
	constMu.Lock()
	t := constBig[k]
	if t == nil {
		t = &Term{op: OpConst, w: w, c: v, id: -1}
		constBig[k] = t
	}
	constMu.Unlock()
	return t
}

func CBool(b bool) *Term {
	if b {
		return True
	}
	return False
}

func CInt(v int64) *Term { return Const(64, uint64(v)) }

func (t *Term) IsConst() bool { return t.op == OpConst }
func (t *Term) True() bool    { return t.op == OpConst && t.w == 0 && t.c == 1 }
func (t *Term) False() bool   { return t.op == OpConst && t.w == 0 && t.c == 0 }

// Signed returns the sign-extended value of a constant
func (t *Term) Signed() int64 { return sext(t.c, t.w) }

func sext(v uint64, w uint8) int64 {
	if w == 0 || w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

type tkey struct {
	op      Op
	w       uint8
	c       uint64
	name    string
	a, b, d *Term
}

// TB is a term builder (arena) private to one path execution
type TB struct {
	tab  map[tkey]*Term
	vars []*Term
	next int32
}

func NewTB() *TB { return &TB{tab: make(map[tkey]*Term, 256)} }

func (tb *TB) mk(op Op, w uint8, c uint64, name string, a, b, d *Term) *Term {
	k := tkey{op, w, c, name, a, b, d}
	if t, ok := tb.tab[k]; ok {
		return t
	}
	tb.next++
	t := &Term{op: op, w: w, c: c, name: name, a: a, b: b, d: d, id: tb.next, ver: -1}
	tb.tab[k] = t
	if op == OpVar {
		tb.vars = append(tb.vars, t)
	}
	return t
}

func (tb *TB) Var(name string, w uint8) *Term {
	return tb.mk(OpVar, w, 0, name, nil, nil, nil)
}

func (tb *TB) Not(a *Term) *Term {
	if a.IsConst() {
		return CBool(a.c == 0)
	}
	if a.op == OpNot {
		return a.a
	}
	return tb.mk(OpNot, 0, 0, "", a, nil, nil)
}

func (tb *TB) And(a, b *Term) *Term {
	if a.IsConst() {
		if a.c == 0 {
			return False
		}
		return b
	}
	if b.IsConst() {
		if b.c == 0 {
			return False
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return False
	}
	return tb.mk(OpAnd, 0, 0, "", a, b, nil)
}

func (tb *TB) Or(a, b *Term) *Term {
	if a.IsConst() {
		if a.c == 1 {
			return True
		}
		return b
	}
	if b.IsConst() {
		if b.c == 1 {
			return True
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return True
	}
	if b.op == OpOr && (compl(a, b.a) || compl(a, b.b)) || a.op == OpOr && (compl(b, a.a) || compl(b, a.b)) {
		return True
	}
	return tb.mk(OpOr, 0, 0, "", a, b, nil)
}

func compl(a, b *Term) bool {
	return a.op == OpNot && a.a == b || b.op == OpNot && b.a == a
}

func (tb *TB) Ite(c, a, b *Term) *Term {
	if c.IsConst() {
		if c.c == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == OpNot {
		return tb.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a.True() {
			return tb.Or(c, b)
		}
		if a.False() {
			return tb.And(tb.Not(c), b)
		}
		if b.True() {
			return tb.Or(tb.Not(c), a)
		}
		if b.False() {
			return tb.And(c, a)
		}
	}
	if b.op == OpIte && b.a == c {
		b = b.d
	}
	if a.op == OpIte && a.a == c {
		a = a.b
	}
	if a == b {
		return a
	}
	return tb.mk(OpIte, a.w, 0, "", c, a, b)
}

func (tb *TB) Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.IsConst() && b.IsConst() {
		return CBool(a.c == b.c)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if a.w == 0 {
			if b.c == 1 {
				return a
			}
			return tb.Not(a)
		}
		switch a.op {
		case OpZExt:
			if b.c&^mask(a.a.w) != 0 {
				return False
			}
			return tb.Eq(a.a, Const(a.a.w, b.c))
		case OpSExt:
			if uint64(sext(b.c&mask(a.a.w), a.a.w))&mask(a.w) != b.c {
				return False
			}
			return tb.Eq(a.a, Const(a.a.w, b.c))
		case OpIte:
			if a.b.IsConst() && a.d.IsConst() {
				return tb.Ite(a.a, CBool(a.b.c == b.c), CBool(a.d.c == b.c))
			}
			if a.b.IsConst() && a.b.c != b.c {
				return tb.And(tb.Not(a.a), tb.Eq(a.d, b))
			}
			if a.d.IsConst() && a.d.c != b.c {
				return tb.And(a.a, tb.Eq(a.b, b))
			}
		case OpAdd:
			if a.b.IsConst() {
				return tb.Eq(a.a, Const(a.w, b.c-a.b.c))
			}
		}
	} else {
		if a.op == OpMul && b.op == OpMul && a.b.IsConst() && a.b == b.b && a.b.c != 0 {
			// equal products without overflow
			h1, l1 := bits.Mul64(maxU(a.a), a.b.c)
			h2, l2 := bits.Mul64(maxU(b.a), a.b.c)
			if h1 == 0 && h2 == 0 && l1 <= mask(a.w) && l2 <= mask(a.w) {
				return tb.Eq(a.a, b.a)
			}
		}
		if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
			return tb.Eq(a.a, b.a)
		}
		if b.op == OpIte && a.op != OpIte {
			a, b = b, a
		}
		if a.op == OpIte && a.w != 0 {
			if a.b == b {
				return tb.Or(a.a, tb.Eq(a.d, b))
			}
			if a.d == b {
				return tb.Or(tb.Not(a.a), tb.Eq(a.b, b))
			}
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return tb.mk(OpEq, 0, 0, "", a, b, nil)
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m
	case OpSub:
		return (x - y) & m
	case OpMul:
		return (x * y) & m
	case OpUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpURem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx >= 0 {
				return m
			}
			return 1
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OpSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OpBAnd:
		return x & y
	case OpBOr:
		return x | y
	case OpBXor:
		return x ^ y
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OpLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAShr:
		s := sext(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(s>>y) & m
	case OpULt:
		return b2u(x < y)
	case OpULe:
		return b2u(x <= y)
	case OpSLt:
		return b2u(sext(x, w) < sext(y, w))
	case OpSLe:
		return b2u(sext(x, w) <= sext(y, w))
	}
	panic("evalBin")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// maxU gives a cheap upper bound of the unsigned value of t
func maxU(t *Term) uint64 {
	if t.op == OpConst {
		return t.c
	}
	if t.op == OpVar {
		return mask(t.w)
	}
	if !t.mxok {
		t.mx = maxU1(t)
		t.mxok = true
	}
	return t.mx
}

func maxU1(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.c
	case OpZExt:
		return maxU(t.a)
	case OpBAnd:
		x, y := maxU(t.a), maxU(t.b)
		if x < y {
			return x
		}
		return y
	case OpIte:
		x, y := maxU(t.b), maxU(t.d)
		if x > y {
			return x
		}
		return y
	case OpAdd:
		x, y := maxU(t.a), maxU(t.b)
		s, c := bits.Add64(x, y, 0)
		if c == 0 && s <= mask(t.w) {
			return s
		}
	case OpLShr:
		if t.b.IsConst() && t.b.c < 64 {
			return maxU(t.a) >> t.b.c
		}
	case OpURem:
		if t.b.IsConst() && t.b.c > 0 {
			return t.b.c - 1
		}
	case OpUDiv:
		if t.b.IsConst() && t.b.c > 0 {
			return maxU(t.a) / t.b.c
		}
	}
	return mask(t.w)
}

func (tb *TB) Bin(op Op, a, b *Term) *Term {
	w := a.w
	rw := w
	if op >= OpULt && op <= OpSLe {
		rw = 0
	}
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch op %d: %d %d", op, a.w, b.w))
	}
	if a.IsConst() && b.IsConst() {
		return Const(rw, evalBin(op, w, a.c, b.c))
	}
	if op == OpSLt || op == OpSLe {
		// comparisons of non-negative values are unsigned
		if maxU(a) <= mask(w)>>1 && maxU(b) <= mask(w)>>1 {
			if op == OpSLt {
				op = OpULt
			} else {
				op = OpULe
			}
		}
	}
	if op == OpULt || op == OpULe {
		// compare zero-extended values at their own width
		for (a.op == OpZExt || a.IsConst()) && (b.op == OpZExt || b.IsConst()) {
			var iw uint8
			if a.op == OpZExt {
				iw = a.a.w
			}
			if b.op == OpZExt && b.a.w > iw {
				iw = b.a.w
			}
			if iw >= a.w || maxU(a) > mask(iw) || maxU(b) > mask(iw) {
				break
			}
			a, b = tb.Resize(a, iw, false), tb.Resize(b, iw, false)
			w = iw
			if a.IsConst() && b.IsConst() {
				break
			}
		}
		if op == OpULe && maxU(a) == 0 {
			return True
		}
		if b.IsConst() && (op == OpULe && maxU(a) <= b.c || op == OpULt && maxU(a) < b.c) {
			return True
		}
		if a.IsConst() && (op == OpULt && maxU(b) <= a.c || op == OpULe && maxU(b) < a.c) {
			return False
		}
		// x <= c  as  x < c+1, c <= x as c-1 < x: one form
		if op == OpULe && b.IsConst() && b.c < mask(w) {
			return tb.Bin(OpULt, a, Const(w, b.c+1))
		}
		if op == OpULe && a.IsConst() && a.c > 0 {
			return tb.Bin(OpULt, Const(w, a.c-1), b)
		}
		if a.IsConst() && b.IsConst() {
			return Const(0, evalBin(op, w, a.c, b.c))
		}
		// x < c+1  is  !(c < x)
		if op == OpULt && b.IsConst() && b.c > 0 {
			return tb.Not(tb.Bin(OpULt, Const(w, b.c-1), a))
		}
	}
	switch op {
	case OpAdd:
		if a.IsConst() {
			a, b = b, a
		}
		if b.op == OpSub && b.b == a {
			return b.a
		}
		if a.op == OpSub && a.b == b {
			return a.a
		}
		if b.IsConst() {
			if b.c == 0 {
				return a
			}
			if a.op == OpAdd && a.b.IsConst() {
				return tb.Bin(OpAdd, a.a, Const(w, a.b.c+b.c))
			}
		}
	case OpSub:
		if b.IsConst() {
			return tb.Bin(OpAdd, a, Const(w, -b.c))
		}
		if a == b {
			return Const(w, 0)
		}
		// (x + c) - x
		if a.op == OpAdd && a.a == b {
			return a.b
		}
		if a.op == OpAdd && a.b == b {
			return a.a
		}
	case OpMul:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.c == 0 {
				return b
			}
			if b.c == 1 {
				return a
			}
		}
	case OpBAnd:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.c == 0 {
				return b
			}
			if b.c == mask(w) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OpBOr, OpBXor:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() && b.c == 0 {
			return a
		}
		if a == b {
			if op == OpBOr {
				return a
			}
			return Const(w, 0)
		}
	case OpShl, OpLShr, OpAShr:
		if b.IsConst() && b.c == 0 {
			return a
		}
		if b.IsConst() && b.c >= uint64(w) && op != OpAShr {
			return Const(w, 0)
		}
	case OpULt:
		if a == b {
			return False
		}
		if b.IsConst() && b.c == 0 {
			return False
		}
		if b.IsConst() && maxU(a) < b.c {
			return True
		}
		if a.IsConst() && a.c >= maxU(b) {
			return False
		}
	case OpULe:
		if a == b {
			return True
		}
		if a.IsConst() && a.c == 0 {
			return True
		}
		if b.IsConst() && maxU(a) <= b.c {
			return True
		}
		if a.IsConst() && a.c > maxU(b) {
			return False
		}
	case OpSLt, OpSLe:
		if a == b {
			return CBool(op == OpSLe)
		}
		half := mask(w) >> 1
		ma, mb := maxU(a), maxU(b)
		if ma <= half && mb <= half {
			// both provably non-negative
			if op == OpSLt {
				return tb.Bin(OpULt, a, b)
			}
			return tb.Bin(OpULe, a, b)
		}
		if ma <= half && b.IsConst() && b.c > half {
			return False
		}
		if mb <= half && a.IsConst() && a.c > half {
			return True
		}
	case OpURem, OpUDiv:
		if b.IsConst() && b.c != 0 && b.c&(b.c-1) == 0 {
			k := uint64(bits.TrailingZeros64(b.c))
			if op == OpURem {
				return tb.Bin(OpBAnd, a, Const(w, b.c-1))
			}
			return tb.Bin(OpLShr, a, Const(w, k))
		}
	case OpSRem, OpSDiv:
		half := mask(w) >> 1
		if maxU(a) <= half && maxU(b) <= half {
			if op == OpSRem {
				return tb.Bin(OpURem, a, b)
			}
			return tb.Bin(OpUDiv, a, b)
		}
	}
	return tb.mk(op, rw, 0, "", a, b, nil)
}

func (tb *TB) BNot(a *Term) *Term {
	if a.IsConst() {
		return Const(a.w, ^a.c)
	}
	return tb.mk(OpBNot, a.w, 0, "", a, nil, nil)
}

func (tb *TB) Neg(a *Term) *Term {
	if a.IsConst() {
		return Const(a.w, -a.c)
	}
	return tb.mk(OpNeg, a.w, 0, "", a, nil, nil)
}

// Resize converts a to width w (sign- or zero-extending, or truncating)
func (tb *TB) Resize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.IsConst() {
		if signed {
			return Const(w, uint64(sext(a.c, a.w)))
		}
		return Const(w, a.c)
	}
	if w < a.w {
		if (a.op == OpZExt || a.op == OpSExt) && a.a.w >= w {
			return tb.Resize(a.a, w, false)
		}
		if a.op == OpZExt && a.a.w < w {
			return tb.Resize(a.a, w, false)
		}
		return tb.mk(OpExtract, w, 0, "", a, nil, nil)
	}
	if signed {
		if a.op == OpZExt {
			return tb.mk(OpZExt, w, 0, "", a.a, nil, nil)
		}
		return tb.mk(OpSExt, w, 0, "", a, nil, nil)
	}
	if a.op == OpZExt {
		return tb.mk(OpZExt, w, 0, "", a.a, nil, nil)
	}
	return tb.mk(OpZExt, w, 0, "", a, nil, nil)
}

// Model maps variable terms to values
type Model struct {
	vals map[*Term]uint64
	ver  int64
}

func (m *Model) Eval(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.c
	case OpVar:
		return m.vals[t]
	}
	if t.ver == m.ver {
		return t.ev
	}
	var r uint64
	switch t.op {
	case OpNot:
		r = 1 - m.Eval(t.a)
	case OpAnd:
		r = m.Eval(t.a)
		if r != 0 {
			r = m.Eval(t.b)
		}
	case OpOr:
		r = m.Eval(t.a)
		if r == 0 {
			r = m.Eval(t.b)
		}
	case OpEq:
		r = b2u(m.Eval(t.a) == m.Eval(t.b))
	case OpIte:
		if m.Eval(t.a) != 0 {
			r = m.Eval(t.b)
		} else {
			r = m.Eval(t.d)
		}
	case OpBNot:
		r = ^m.Eval(t.a) & mask(t.w)
	case OpNeg:
		r = -m.Eval(t.a) & mask(t.w)
	case OpExtract:
		r = m.Eval(t.a) & mask(t.w)
	case OpZExt:
		r = m.Eval(t.a)
	case OpSExt:
		r = uint64(sext(m.Eval(t.a), t.a.w)) & mask(t.w)
	default:
		r = evalBin(t.op, t.a.w, m.Eval(t.a), m.Eval(t.b))
	}
	t.ev = r
	t.ver = m.ver
	return r
}

// ---- SMT-LIB output ----

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func ref(t *Term) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.c == 1 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.w/4), t.c)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.c, t.w)
	case OpVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

// define emits definitions for t and everything below it that has not been
// defined in the current solver scope
func define(t *Term, done map[*Term]bool, out *strings.Builder) {
	if t.op == OpConst || done[t] {
		return
	}
	type item struct {
		t *Term
		x bool
	}
	stack := []item{{t, false}}
	for len(stack) > 0 {
		it := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		t := it.t
		if t.op == OpConst || done[t] {
			continue
		}
		if t.op == OpVar {
			fmt.Fprintf(out, "(declare-fun |%s| () %s)\n", t.name, sortName(t.w))
			done[t] = true
			continue
		}
		if !it.x {
			stack = append(stack, item{t, true})
			for _, c := range []*Term{t.a, t.b, t.d} {
				if c != nil && c.op != OpConst && !done[c] {
					stack = append(stack, item{c, false})
				}
			}
			continue
		}
		done[t] = true
		fmt.Fprintf(out, "(define-fun t%d () %s ", t.id, sortName(t.w))
		switch t.op {
		case OpExtract:
			fmt.Fprintf(out, "((_ extract %d 0) %s)", t.w-1, ref(t.a))
		case OpZExt:
			fmt.Fprintf(out, "((_ zero_extend %d) %s)", t.w-t.a.w, ref(t.a))
		case OpSExt:
			fmt.Fprintf(out, "((_ sign_extend %d) %s)", t.w-t.a.w, ref(t.a))
		default:
			fmt.Fprintf(out, "(%s", opNames[t.op])
			for _, c := range []*Term{t.a, t.b, t.d} {
				if c != nil {
					out.WriteByte(' ')
					out.WriteString(ref(c))
				}
			}
			out.WriteByte(')')
		}
		out.WriteString(")\n")
	}
}
