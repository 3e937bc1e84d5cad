package main

import (
	"fmt"
	"go/token"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (t *Thread) binop(op token.Token, xt types.Type, x Value, yt types.Type, y Value) Value {
	m := t.m
	tb := m.tb
	switch op {
	case token.EQL:
		return m.equals(xt, x, y)
	case token.NEQ:
		return tb.Not(m.equals(xt, x, y))
	}
	if a, ok := x.(*Term); ok {
		b, ok := y.(*Term)
		if !ok {
			panic(unsupported("binop operand"))
		}
		w, signed, _ := intInfo(xt)
		if w == 0 {
			switch op {
			case token.AND, token.LAND:
				return tb.And(a, b)
			case token.OR, token.LOR:
				return tb.Or(a, b)
			case token.XOR:
				return tb.Not(tb.Eq(a, b))
			}
			panic(unsupported("bool op " + op.String()))
		}
		switch op {
		case token.ADD:
			return tb.Bin(OpAdd, a, b)
		case token.SUB:
			return tb.Bin(OpSub, a, b)
		case token.MUL:
			return tb.Bin(OpMul, a, b)
		case token.QUO, token.REM:
			if m.Branch(tb.Eq(b, Const(w, 0))) {
				p := m.rtPanic("integer divide by zero")
				p.where = t.where()
				panic(p)
			}
			switch {
			case op == token.QUO && signed:
				return tb.Bin(OpSDiv, a, b)
			case op == token.QUO:
				return tb.Bin(OpUDiv, a, b)
			case signed:
				return tb.Bin(OpSRem, a, b)
			default:
				return tb.Bin(OpURem, a, b)
			}
		case token.AND:
			return tb.Bin(OpBAnd, a, b)
		case token.OR:
			return tb.Bin(OpBOr, a, b)
		case token.XOR:
			return tb.Bin(OpBXor, a, b)
		case token.AND_NOT:
			return tb.Bin(OpBAnd, a, tb.BNot(b))
		case token.SHL, token.SHR:
			sw, ssigned, _ := intInfo(yt)
			if ssigned && !b.IsConst() {
				if m.Branch(tb.Bin(OpSLt, b, Const(sw, 0))) {
					panic(m.rtPanic("negative shift amount"))
				}
			} else if ssigned && b.Signed() < 0 {
				panic(m.rtPanic("negative shift amount"))
			}
			var cnt *Term
			if sw <= w {
				cnt = tb.Resize(b, w, false)
			} else {
				// clamp so that truncation keeps "too large" too large
				big := tb.Bin(OpULe, Const(sw, uint64(w)), b)
				cnt = tb.Ite(big, Const(w, uint64(w)), tb.Resize(b, w, false))
			}
			switch {
			case op == token.SHL:
				return tb.Bin(OpShl, a, cnt)
			case signed:
				return tb.Bin(OpAShr, a, cnt)
			default:
				return tb.Bin(OpLShr, a, cnt)
			}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if op == token.GTR || op == token.GEQ {
				a, b = b, a
			}
			lt := op == token.LSS || op == token.GTR
			switch {
			case lt && signed:
				return tb.Bin(OpSLt, a, b)
			case lt:
				return tb.Bin(OpULt, a, b)
			case signed:
				return tb.Bin(OpSLe, a, b)
			default:
				return tb.Bin(OpULe, a, b)
			}
		}
		panic(unsupported("int op " + op.String()))
	}
	if isString(xt) {
		switch op {
		case token.ADD:
			return strConcat(x, y)
		case token.LSS:
			return tb.strLess(x, y)
		case token.GTR:
			return tb.strLess(y, x)
		case token.LEQ:
			return tb.Not(tb.strLess(y, x))
		case token.GEQ:
			return tb.Not(tb.strLess(x, y))
		}
	}
	switch a := x.(type) {
	case float64:
		b := y.(float64)
		return floatOp(op, a, b)
	case float32:
		b := y.(float32)
		r := floatOp(op, float64(a), float64(b))
		if f, ok := r.(float64); ok {
			return float32(f)
		}
		return r
	}
	panic(unsupported(fmt.Sprintf("binop %s on %T", op, x)))
}

func floatOp(op token.Token, a, b float64) Value {
	switch op {
	case token.ADD:
		return a + b
	case token.SUB:
		return a - b
	case token.MUL:
		return a * b
	case token.QUO:
		return a / b
	case token.LSS:
		return CBool(a < b)
	case token.LEQ:
		return CBool(a <= b)
	case token.GTR:
		return CBool(a > b)
	case token.GEQ:
		return CBool(a >= b)
	}
	panic(unsupported("float op " + op.String()))
}

func (t *Thread) convert(from, to types.Type, x Value) Value {
	m := t.m
	tb := m.tb
	fu, tu := from.Underlying(), to.Underlying()
	if a, ok := x.(*Term); ok {
		_, fs, fok := intInfo(from)
		if !fok {
			panic(unsupported("convert from " + from.String()))
		}
		if w, _, ok := intInfo(to); ok {
			return tb.Resize(a, w, fs)
		}
		if b, ok := tu.(*types.Basic); ok {
			switch {
			case b.Info()&types.IsString != 0:
				return t.runeToString(tb.Resize(a, 64, fs))
			case b.Kind() == types.Float64 || b.Kind() == types.Float32:
				c := m.Concretize(a)
				var f float64
				if fs {
					f = float64(sext(c, a.w))
				} else {
					f = float64(c)
				}
				if b.Kind() == types.Float32 {
					return float32(f)
				}
				return f
			case b.Kind() == types.UnsafePointer:
				panic(unsupported("integer to pointer"))
			}
		}
		panic(unsupported("convert int to " + to.String()))
	}
	switch v := x.(type) {
	case float64, float32:
		f, ok := v.(float64)
		if !ok {
			f = float64(v.(float32))
		}
		if w, signed, ok := intInfo(to); ok {
			if signed {
				return Const(w, uint64(int64(f)))
			}
			return Const(w, uint64(f))
		}
		if b, ok := tu.(*types.Basic); ok {
			if b.Kind() == types.Float32 {
				return float32(f)
			}
			return f
		}
	case string, *SymStr:
		if st, ok := tu.(*types.Slice); ok {
			if w, _, ok := intInfo(st.Elem()); ok && w == 8 {
				cells := strCells(v)
				arr := make([]Value, len(cells))
				for i, c := range cells {
					arr[i] = c
				}
				return mkSlice(arr)
			}
			// []rune
			arr := []Value{}
			for i := 0; i < strLen(v); {
				r, w := t.decodeRune(v, i)
				arr = append(arr, r)
				i += w
			}
			return mkSlice(arr)
		}
		return v
	case *Slice:
		if b, ok := tu.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if st, ok := fu.(*types.Slice); ok {
				if w, _, ok := intInfo(st.Elem()); ok && w == 8 {
					return t.bytesToString(v)
				}
			}
			var out Value = ""
			n := int(m.Concretize(v.len))
			for i := 0; i < n; i++ {
				r := m.cell(v, i).(*Term)
				out = strConcat(out, t.runeToString(tb.Resize(r, 64, true)))
			}
			return out
		}
		if at, ok := tu.(*types.Array); ok {
			n := int(at.Len())
			if !m.Branch(tb.Bin(OpSLe, CInt(int64(n)), v.len)) {
				panic(m.rtPanic("cannot convert slice to array: length too short"))
			}
			s := make(Struct, n)
			for i := range s {
				s[i] = copyVal(m.cell(v, i))
			}
			return s
		}
		return v
	case *Value, *SymPtr, *SliceData:
		if b, ok := tu.(*types.Basic); ok && b.Kind() == types.Uintptr {
			panic(unsupported("pointer to integer"))
		}
		return v
	}
	return x
}

func (t *Thread) runeToString(r *Term) Value {
	if r.IsConst() {
		return string(rune(int32(r.c)))
	}
	m := t.m
	fn := m.ex.prog.findFunc("unicode/utf8", "AppendRune")
	if fn == nil {
		return string(rune(int32(m.Concretize(r))))
	}
	s := t.callSSA(fn, []Value{nilSlice, m.tb.Resize(r, 32, true)}, nil).(*Slice)
	return t.bytesToString(s)
}

var _ = utf8.RuneError

// cell reads element i (concrete) of s
func (m *Machine) cell(s *Slice, i int) Value {
	return m.selectCell(s.arr, m.tb.Bin(OpAdd, s.off, CInt(int64(i))))
}

func (m *Machine) setCell(s *Slice, i int, v Value) {
	m.storeCell(s.arr, m.tb.Bin(OpAdd, s.off, CInt(int64(i))), v)
}

func (t *Thread) bytesToString(s *Slice) Value {
	m := t.m
	n := int(m.Concretize(s.len))
	cells := make([]*Term, n)
	for i := range cells {
		cells[i] = m.cell(s, i).(*Term)
	}
	return mkStr(cells)
}

func (t *Thread) sliceCells(s *Slice) []*Term {
	n := int(t.m.Concretize(s.len))
	cells := make([]*Term, n)
	for i := range cells {
		cells[i] = t.m.cell(s, i).(*Term)
	}
	return cells
}

func cellsSlice(cells []*Term) *Slice {
	arr := make([]Value, len(cells))
	for i, c := range cells {
		arr[i] = c
	}
	return mkSlice(arr)
}

func bytesSlice(b []byte) *Slice {
	arr := make([]Value, len(b))
	for i, c := range b {
		arr[i] = Const(8, uint64(c))
	}
	return mkSlice(arr)
}

func (t *Thread) builtin(fr *frame, bi *ssa.Builtin, args []Value, in *ssa.Call) Value {
	m := t.m
	tb := m.tb
	switch bi.Name() {
	case "len":
		switch a := args[0].(type) {
		case *Slice:
			return a.len
		case string, *SymStr:
			return CInt(int64(strLen(a)))
		case *Map:
			if a == nil {
				return CInt(0)
			}
			if in != nil && fr != nil {
				t.mapRace(a, false, in, fr)
			}
			return CInt(int64(a.n))
		case *Chan:
			if a == nil {
				return CInt(0)
			}
			t.yield(&pend{name: "len", objs: []*Obj{a.obj}})
			return CInt(int64(len(a.buf)))
		case Struct:
			return CInt(int64(len(a)))
		case *Value:
			return CInt(int64(len((*a).(Struct))))
		}
	case "cap":
		switch a := args[0].(type) {
		case *Slice:
			return a.cap
		case *Chan:
			if a == nil {
				return CInt(0)
			}
			return CInt(int64(a.cap))
		case Struct:
			return CInt(int64(len(a)))
		case *Value:
			return CInt(int64(len((*a).(Struct))))
		}
	case "append":
		return t.appendOp(fr, args[0].(*Slice), args[1], in)
	case "copy":
		return t.copyOp(fr, args[0].(*Slice), args[1], in)
	case "close":
		t.closeChan(args[0])
		return nil
	case "delete":
		mp, _ := args[0].(*Map)
		if mp != nil {
			if in != nil && fr != nil {
				t.mapRace(mp, true, in, fr)
			}
			m.mapDelete(mp, args[1])
		}
		return nil
	case "clear":
		switch a := args[0].(type) {
		case *Map:
			if a != nil {
				for _, e := range a.entries {
					e.deleted = true
				}
				a.entries = nil
				a.n = 0
			}
		case *Slice:
			n := int(m.Concretize(a.len))
			if n > 0 {
				et := bi.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
				for i := 0; i < n; i++ {
					m.setCell(a, i, zero(et))
				}
			}
		}
		return nil
	case "print", "println":
		return nil
	case "recover":
		if fr != nil && fr.deferOf != nil && fr.deferOf.panic != nil {
			v := fr.deferOf.panic.v
			fr.deferOf.panic = nil
			return v
		}
		return Iface{}
	case "min", "max":
		r := args[0]
		sig := bi.Type().(*types.Signature)
		ty := sig.Params().At(0).Type()
		for _, a := range args[1:] {
			op := token.LSS
			if bi.Name() == "max" {
				op = token.GTR
			}
			c := t.binop(op, ty, a, ty, r).(*Term)
			if x, ok := a.(*Term); ok {
				r = tb.Ite(c, x, r.(*Term))
			} else if m.Branch(c) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			panic(t.derefErr())
		}
		return args[0]
	case "String": // unsafe.String
		n := int(m.Concretize(tb.Resize(args[1].(*Term), 64, true)))
		switch p := args[0].(type) {
		case *SliceData:
			return t.bytesToString(&Slice{arr: p.s.arr, off: p.s.off, len: CInt(int64(n)), cap: CInt(int64(n))})
		case *Value:
			if n == 0 {
				return ""
			}
		}
		panic(unsupported("unsafe.String"))
	case "StringData":
		return &SliceData{s: cellsSlice(strCells(args[0]))}
	case "SliceData":
		s := args[0].(*Slice)
		if s.arr == nil {
			return (*Value)(nil)
		}
		return &SliceData{s: s}
	case "Slice": // unsafe.Slice
		n := m.Concretize(tb.Resize(args[1].(*Term), 64, true))
		if p, ok := args[0].(*SliceData); ok {
			return &Slice{arr: p.s.arr, off: p.s.off, len: CInt(int64(n)), cap: CInt(int64(n))}
		}
		panic(unsupported("unsafe.Slice"))
	case "panic":
		panic(targetPanic{v: args[0].(Iface), where: t.where()})
	}
	panic(unsupported("builtin " + bi.Name()))
}

func (t *Thread) sliceRace(fr *frame, s *Slice, n int, write bool, in ssa.Instruction) {
	if fr == nil || !fr.fi.isRepo || in == nil || len(t.m.threads) < 2 || t.m.noSched > 0 || !s.off.IsConst() {
		return
	}
	for i := 0; i < n && int(s.off.c)+i < len(s.arr); i++ {
		t.m.access(t, &s.arr[int(s.off.c)+i], write, in, fr.fi.fn)
	}
}

// cellKey identifies the scheduling object of a memory cell
type cellKey struct{ p *Value }

// racyYield is a scheduling point before an operation on a range of memory that
// an earlier round found to be racy
func (t *Thread) racyYield(fr *frame, in ssa.Instruction, ranges ...[]Value) {
	m := t.m
	if fr == nil || in == nil || !fr.fi.isRepo || len(m.threads) < 2 || m.noSched > 0 || m.ex.racy == nil || !m.ex.racy[in] {
		return
	}
	var objs []*Obj
	for _, r := range ranges {
		for i := range r {
			k := cellKey{&r[i]}
			o, ok := m.sync[k].(*Obj)
			if !ok {
				o = m.newObj("mem")
				m.sync[k] = o
			}
			objs = append(objs, o)
		}
	}
	if len(objs) > 0 {
		t.yield(&pend{name: "mem", objs: objs, write: true})
	}
}

func (t *Thread) appendOp(fr *frame, s *Slice, y Value, in *ssa.Call) Value {
	m := t.m
	var add []Value
	switch a := y.(type) {
	case *Slice:
		n := int(m.Concretize(a.len))
		if in != nil && n > 0 && m.ex.racy != nil && m.ex.racy[in] {
			o, k := int(m.Concretize(a.off)), int(m.Concretize(s.len))
			ranges := [][]Value{a.arr[o : o+n]}
			if s.arr != nil {
				so := int(m.Concretize(s.off))
				end := so + k + n
				if end > len(s.arr) {
					end = len(s.arr)
				}
				ranges = append(ranges, s.arr[so:end])
			}
			t.racyYield(fr, in, ranges...)
		}
		add = make([]Value, n)
		for i := range add {
			add[i] = copyVal(m.cell(a, i))
		}
		if in != nil {
			t.sliceRace(fr, a, n, false, in)
		}
	case string, *SymStr:
		for _, c := range strCells(a) {
			add = append(add, c)
		}
	default:
		panic(unsupported("append operand"))
	}
	if len(add) == 0 {
		return s
	}
	n := int(m.Concretize(s.len))
	off := 0
	if s.arr != nil {
		off = int(m.Concretize(s.off))
	}
	total := n + len(add)
	fits := m.Branch(m.tb.Bin(OpSLe, CInt(int64(total)), s.cap))
	if fits && s.arr != nil {
		for i, v := range add {
			storeVal(&s.arr[off+n+i], v)
		}
		if in != nil {
			t.sliceRace(fr, &Slice{arr: s.arr, off: CInt(int64(off + n)), len: CInt(int64(len(add)))}, len(add), true, in)
		}
		return &Slice{arr: s.arr, off: s.off, len: CInt(int64(total)), cap: s.cap}
	}
	if in != nil && s.arr != nil {
		t.sliceRace(fr, &Slice{arr: s.arr, off: CInt(int64(off)), len: CInt(int64(n))}, n, false, in)
	}
	nc := total
	if c := 2 * n; c > nc {
		nc = c
	}
	if nc < 8 {
		if _, ok := add[0].(*Term); ok {
			nc = 8
		}
	}
	arr := make([]Value, nc)
	for i := 0; i < n; i++ {
		arr[i] = copyVal(s.arr[off+i])
	}
	copy(arr[n:], add)
	for i := total; i < nc; i++ {
		arr[i] = zeroLike(add[0])
	}
	return &Slice{arr: arr, off: CInt(0), len: CInt(int64(total)), cap: CInt(int64(nc))}
}

func zeroLike(v Value) Value {
	switch a := v.(type) {
	case *Term:
		return Const(a.w, 0)
	case Struct:
		s := make(Struct, len(a))
		for i := range a {
			s[i] = zeroLike(a[i])
		}
		return s
	case string, *SymStr:
		return ""
	case Iface:
		return Iface{}
	case *Value, *SymPtr, *SliceData:
		return (*Value)(nil)
	case *Map:
		return (*Map)(nil)
	case *Chan:
		return (*Chan)(nil)
	case *Closure:
		return (*Closure)(nil)
	case *Slice:
		return nilSlice
	case float64:
		return float64(0)
	case float32:
		return float32(0)
	}
	return nil
}

func (t *Thread) copyOp(fr *frame, d *Slice, y Value, in *ssa.Call) Value {
	m := t.m
	tb := m.tb
	var src *Slice
	switch a := y.(type) {
	case *Slice:
		src = a
	case string, *SymStr:
		src = cellsSlice(strCells(a))
	}
	n := tb.Ite(tb.Bin(OpSLt, d.len, src.len), d.len, src.len)
	if n.IsConst() && n.c == 0 {
		return n
	}
	if d.arr == nil || src.arr == nil {
		return CInt(0)
	}
	doff, soff := d.off, src.off
	terms := false
	if len(d.arr) > 0 {
		_, terms = d.arr[0].(*Term)
	}
	if !terms {
		n = CInt(int64(m.Concretize(n)))
	}
	if n.IsConst() && doff.IsConst() && soff.IsConst() {
		k := int(n.c)
		if in != nil {
			t.racyYield(fr, in, src.arr[soff.c:int(soff.c)+k], d.arr[doff.c:int(doff.c)+k])
		}
		tmp := make([]Value, k)
		for i := 0; i < k; i++ {
			tmp[i] = copyVal(src.arr[int(soff.c)+i])
		}
		for i := 0; i < k; i++ {
			storeVal(&d.arr[int(doff.c)+i], tmp[i])
		}
		if in != nil {
			t.sliceRace(fr, src, k, false, in)
			t.sliceRace(fr, d, k, true, in)
		}
		return n
	}
	if in != nil && fr != nil && fr.fi.isRepo && len(m.threads) > 1 && m.noSched == 0 {
		m.access(t, &src.arr[0], false, in, fr.fi.fn)
		m.access(t, &d.arr[0], true, in, fr.fi.fn)
	}
	if !doff.IsConst() {
		doff = CInt(int64(m.Concretize(doff)))
	}
	// symbolic length and/or symbolic source offset
	mx := len(d.arr) - int(doff.c)
	if u := maxU(n); u < uint64(mx) {
		mx = int(u)
	}
	tmp := make([]Value, mx)
	for i := 0; i < mx; i++ {
		si := tb.Bin(OpAdd, soff, CInt(int64(i)))
		old := d.arr[int(doff.c)+i].(*Term)
		c := tb.Bin(OpSLt, CInt(int64(i)), n)
		if c.False() {
			tmp[i] = old
			continue
		}
		var v *Term
		if si.IsConst() {
			if si.c >= uint64(len(src.arr)) {
				tmp[i] = old
				continue
			}
			v = src.arr[si.c].(*Term)
		} else {
			v = m.selectCell(src.arr, si).(*Term)
		}
		tmp[i] = tb.Ite(c, v, old)
	}
	for i := range tmp {
		d.arr[int(doff.c)+i] = tmp[i]
	}
	return n
}
