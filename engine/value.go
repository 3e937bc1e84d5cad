package main

// Runtime values of the symbolic interpreter.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	*Term            bool and all integer types
//	float64, float32 (always concrete)
//	string           concrete string, *SymStr otherwise
//	*Value           pointer (nil *Value is the nil pointer)
//	*SymPtr          pointer to an element at a symbolic index
//	*SliceData       result of unsafe.SliceData / StringData
//	Struct           structs and arrays
//	*Slice, *Map, *Chan, *Closure, Iface, Tuple
//	*RV, *RType      reflect values
type Value interface{}

type Struct []Value

type Tuple []Value

type SymStr struct{ cells []*Term }

type Slice struct {
	arr           []Value
	off, len, cap *Term
}

type SymPtr struct {
	arr []Value
	idx *Term
}

type SliceData struct{ s *Slice }

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
	bi  *ssa.Builtin
	nat func(t *Thread, args []Value) Value
}

type mapEntry struct {
	k, v    Value
	deleted bool
}

type Map struct {
	entries []*mapEntry
	n       int
	kt, vt  types.Type
}

type mapIter struct {
	entries []*mapEntry
	i       int
}

type strIter struct {
	s Value
	i int
}

var nilSlice = &Slice{arr: nil, off: CInt(0), len: CInt(0), cap: CInt(0)}

func mkSlice(arr []Value) *Slice {
	n := CInt(int64(len(arr)))
	if arr == nil {
		arr = []Value{}
	}
	return &Slice{arr: arr, off: CInt(0), len: n, cap: n}
}

func basicWidth(k types.BasicKind) (w uint8, signed bool, ok bool) {
	switch k {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

// intInfo returns width/signedness when t's underlying type is integer or bool
func intInfo(t types.Type) (uint8, bool, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return basicWidth(u.Kind())
	case *types.TypeParam:
		return 0, false, false
	}
	return 0, false, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := basicWidth(u.Kind()); ok {
			return Const(w, 0)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return ""
		case types.Float64, types.UntypedFloat:
			return float64(0)
		case types.Float32:
			return float32(0)
		case types.UnsafePointer, types.UntypedNil:
			return (*Value)(nil)
		}
		panic(unsupported("zero of " + t.String()))
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Array:
		n := int(u.Len())
		s := make(Struct, n)
		if n > 0 {
			z := zero(u.Elem())
			if _, isS := z.(Struct); isS {
				s[0] = z
				for i := 1; i < n; i++ {
					s[i] = zero(u.Elem())
				}
			} else {
				for i := range s {
					s[i] = z
				}
			}
		}
		return s
	case *types.Struct:
		n := u.NumFields()
		s := make(Struct, n)
		for i := 0; i < n; i++ {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Slice:
		return nilSlice
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Tuple:
		if u.Len() == 1 {
			return zero(u.At(0).Type())
		}
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = zero(u.At(i).Type())
		}
		return tp
	}
	panic(unsupported("zero of " + t.String()))
}

func copyVal(v Value) Value {
	if s, ok := v.(Struct); ok {
		c := make(Struct, len(s))
		for i, e := range s {
			if _, isS := e.(Struct); isS {
				c[i] = copyVal(e)
			} else {
				c[i] = e
			}
		}
		return c
	}
	return v
}

// storeVal stores v into *addr preserving interior pointers
func storeVal(addr *Value, v Value) {
	if s, ok := v.(Struct); ok {
		if d, ok := (*addr).(Struct); ok && len(d) == len(s) {
			for i := range s {
				if _, isS := s[i].(Struct); isS {
					storeVal(&d[i], s[i])
				} else {
					d[i] = s[i]
				}
			}
			return
		}
		*addr = copyVal(v)
		return
	}
	*addr = v
}

// ---- strings ----

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.cells)
	}
	panic(fmt.Sprintf("strLen of %T", v))
}

func strCell(v Value, i int) *Term {
	switch s := v.(type) {
	case string:
		return Const(8, uint64(s[i]))
	case *SymStr:
		return s.cells[i]
	}
	panic("strCell")
}

func strCells(v Value) []*Term {
	switch s := v.(type) {
	case string:
		c := make([]*Term, len(s))
		for i := 0; i < len(s); i++ {
			c[i] = Const(8, uint64(s[i]))
		}
		return c
	case *SymStr:
		return s.cells
	}
	panic(fmt.Sprintf("strCells of %T", v))
}

func mkStr(cells []*Term) Value {
	b := make([]byte, len(cells))
	for i, c := range cells {
		if !c.IsConst() {
			cc := make([]*Term, len(cells))
			copy(cc, cells)
			return &SymStr{cc}
		}
		b[i] = byte(c.c)
	}
	return string(b)
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		return mkStr(s.cells[lo:hi])
	}
	panic("strSlice")
}

func strConcat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
	}
	return mkStr(append(append([]*Term{}, strCells(a)...), strCells(b)...))
}

func (tb *TB) strEq(a, b Value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return CBool(x == y)
		}
	}
	n := strLen(a)
	if n != strLen(b) {
		return False
	}
	r := True
	for i := 0; i < n; i++ {
		r = tb.And(r, tb.Eq(strCell(a, i), strCell(b, i)))
		if r.False() {
			return r
		}
	}
	return r
}

func (tb *TB) strLess(a, b Value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return CBool(x < y)
		}
	}
	la, lb := strLen(a), strLen(b)
	n := la
	if lb < n {
		n = lb
	}
	r := CBool(la < lb)
	for i := n - 1; i >= 0; i-- {
		x, y := strCell(a, i), strCell(b, i)
		r = tb.Ite(tb.Eq(x, y), r, tb.Bin(OpULt, x, y))
	}
	return r
}

// ---- equality ----

func (m *Machine) equals(t types.Type, x, y Value) *Term {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return m.ifaceEq(x.(Iface), y.(Iface))
	case *types.Struct:
		a, b := x.(Struct), y.(Struct)
		r := True
		for i := range a {
			f := u.Field(i)
			if f.Name() == "_" {
				continue
			}
			r = m.tb.And(r, m.equals(f.Type(), a[i], b[i]))
			if r.False() {
				return r
			}
		}
		return r
	case *types.Array:
		a, b := x.(Struct), y.(Struct)
		r := True
		for i := range a {
			r = m.tb.And(r, m.equals(u.Elem(), a[i], b[i]))
			if r.False() {
				return r
			}
		}
		return r
	case *types.Slice:
		a, b := x.(*Slice), y.(*Slice)
		if a.arr == nil || b.arr == nil {
			return CBool(a.arr == nil && b.arr == nil)
		}
		panic(unsupported("slice comparison"))
	case *types.Map:
		return CBool(x.(*Map) == y.(*Map))
	case *types.Signature:
		return CBool(x.(*Closure) == y.(*Closure))
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return m.tb.strEq(x, y)
		}
	}
	switch a := x.(type) {
	case *Term:
		return m.tb.Eq(a, y.(*Term))
	case float64:
		return CBool(a == y.(float64))
	case float32:
		return CBool(a == y.(float32))
	case *Value:
		b, ok := y.(*Value)
		return CBool(ok && a == b)
	case *Chan:
		b, ok := y.(*Chan)
		return CBool(ok && a == b)
	case *SymPtr:
		if _, ok := y.(*Value); ok {
			if y.(*Value) == nil {
				return False
			}
		}
		if b, ok := y.(*SymPtr); ok && len(a.arr) > 0 && len(b.arr) > 0 && &a.arr[0] == &b.arr[0] {
			return m.tb.Eq(a.idx, b.idx)
		}
		panic(unsupported("symbolic pointer comparison"))
	case *SliceData:
		b, ok := y.(*SliceData)
		return CBool(ok && len(a.s.arr) > 0 && len(b.s.arr) > 0 && &a.s.arr[0] == &b.s.arr[0])
	case *RType:
		b, ok := y.(*RType)
		return CBool(ok && types.Identical(a.t, b.t))
	case nil:
		return CBool(y == nil)
	}
	return CBool(x == y)
}

func (m *Machine) ifaceEq(a, b Iface) *Term {
	if a.t == nil || b.t == nil {
		return CBool(a.t == nil && b.t == nil)
	}
	if !types.Identical(a.t, b.t) {
		return False
	}
	switch a.t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Signature:
		panic(m.rtPanic("runtime error: comparing uncomparable type " + a.t.String()))
	}
	return m.equals(a.t, a.v, b.v)
}

// ---- maps ----

func (m *Machine) mapFind(mp *Map, k Value) *mapEntry {
	if mp == nil {
		return nil
	}
	if kt, ok := k.(Iface); ok && kt.t != nil {
		switch kt.t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Signature:
			panic(m.rtPanic("runtime error: hash of unhashable type " + kt.t.String()))
		}
	}
	// look for a definite hit first to avoid needless forks
	var maybe []*mapEntry
	var conds []*Term
	for _, e := range mp.entries {
		c := m.equals(mp.kt, e.k, k)
		if c.True() {
			return e
		}
		if !c.False() {
			maybe = append(maybe, e)
			conds = append(conds, c)
		}
	}
	for i, e := range maybe {
		if m.Branch(conds[i]) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mp *Map, k, v Value) {
	if e := m.mapFind(mp, k); e != nil {
		e.v = copyVal(v)
		return
	}
	mp.entries = append(mp.entries, &mapEntry{k: copyVal(k), v: copyVal(v)})
	mp.n++
}

func (m *Machine) mapDelete(mp *Map, k Value) {
	if mp == nil {
		return
	}
	if e := m.mapFind(mp, k); e != nil {
		e.deleted = true
		mp.n--
		out := make([]*mapEntry, 0, len(mp.entries))
		for _, x := range mp.entries {
			if x != e {
				out = append(out, x)
			}
		}
		mp.entries = out
	}
}
