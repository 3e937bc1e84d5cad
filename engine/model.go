package main

// Models: reflect subset, encoding/json, the file system, package presets.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// RV models reflect.Value, RType models reflect.Type
type RV struct {
	t    types.Type
	v    Value
	addr *Value
	set  func(Value) // settable element of a slice
}

type RType struct{ t types.Type }

func rtypeIface(t types.Type) Value {
	if t == nil {
		return Iface{}
	}
	return Iface{t: types.Typ[types.Uintptr], v: &RType{t}}
}

func (r *RV) get() Value {
	if r.addr != nil {
		return *r.addr
	}
	return r.v
}

func rkind(t types.Type) reflect.Kind {
	if t == nil {
		return reflect.Invalid
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Struct:
		return reflect.Struct
	case *types.Array:
		return reflect.Array
	case *types.Slice:
		return reflect.Slice
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	}
	return reflect.Invalid
}

func (t *Thread) rv(v Value) *RV {
	if r, ok := v.(*RV); ok {
		return r
	}
	return &RV{} // zero reflect.Value
}

func (t *Thread) reflectPanic(msg string) targetPanic {
	return targetPanic{v: t.m.errStr("reflect: " + msg), where: t.where()}
}

func (t *Thread) rvLen(v Value) Value {
	switch a := t.rv(v).get().(type) {
	case *Slice:
		return a.len
	case *Map:
		if a == nil {
			return CInt(0)
		}
		return CInt(int64(a.n))
	case string, *SymStr:
		return CInt(int64(strLen(a)))
	case Struct:
		return CInt(int64(len(a)))
	}
	panic(unsupported("reflect Len"))
}

func (t *Thread) rtypeMethod(rt *RType, name string, args []Value) Value {
	switch name {
	case "Kind":
		return Const(64, uint64(rkind(rt.t)))
	case "Elem":
		switch u := rt.t.Underlying().(type) {
		case *types.Pointer:
			return rtypeIface(u.Elem())
		case *types.Slice:
			return rtypeIface(u.Elem())
		case *types.Array:
			return rtypeIface(u.Elem())
		case *types.Map:
			return rtypeIface(u.Elem())
		case *types.Chan:
			return rtypeIface(u.Elem())
		}
		panic(t.reflectPanic("Elem of invalid type " + rt.t.String()))
	case "Key":
		return rtypeIface(rt.t.Underlying().(*types.Map).Key())
	case "Name":
		if n, ok := rt.t.(*types.Named); ok {
			return n.Obj().Name()
		}
		if b, ok := rt.t.(*types.Basic); ok {
			return b.Name()
		}
		return ""
	case "String":
		return types.TypeString(rt.t, func(p *types.Package) string { return p.Name() })
	case "Comparable":
		return CBool(types.Comparable(rt.t))
	case "NumField":
		return CInt(int64(rt.t.Underlying().(*types.Struct).NumFields()))
	case "PkgPath":
		if n, ok := rt.t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	}
	panic(unsupported("reflect.Type." + name))
}

func regModel() {
	const p = "reflect."
	reg(p+"TypeOf", func(t *Thread, fn *ssa.Function, a []Value) Value { return rtypeIface(a[0].(Iface).t) })
	reg(p+"ValueOf", func(t *Thread, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		return &RV{t: i.t, v: i.v}
	})
	typ := func(v Value) types.Type { return v.(Iface).v.(*RType).t }
	reg(p+"New", func(t *Thread, fn *ssa.Function, a []Value) Value {
		ty := typ(a[0])
		v := zero(ty)
		return &RV{t: types.NewPointer(ty), v: &v}
	})
	reg(p+"Zero", func(t *Thread, fn *ssa.Function, a []Value) Value {
		ty := typ(a[0])
		return &RV{t: ty, v: zero(ty)}
	})
	reg(p+"MakeSlice", func(t *Thread, fn *ssa.Function, a []Value) Value {
		ty := typ(a[0])
		return &RV{t: ty, v: t.makeSlice(ty.Underlying().(*types.Slice).Elem(), term(a[1]), term(a[2]))}
	})
	mkmap := func(t *Thread, fn *ssa.Function, a []Value) Value {
		ty := typ(a[0])
		mt := ty.Underlying().(*types.Map)
		return &RV{t: ty, v: &Map{kt: mt.Key(), vt: mt.Elem()}}
	}
	reg(p+"MakeMap", mkmap)
	reg(p+"MakeMapWithSize", mkmap)
	reg(p+"DeepEqual", func(t *Thread, fn *ssa.Function, a []Value) Value {
		return CBool(t.deepEqual(a[0].(Iface).t, a[0].(Iface).v, a[1].(Iface).t, a[1].(Iface).v, 0))
	})
	reg(p+"Indirect", func(t *Thread, fn *ssa.Function, a []Value) Value {
		r := t.rv(a[0])
		if pt, ok := r.t.Underlying().(*types.Pointer); ok {
			q := r.get().(*Value)
			if q == nil {
				return &RV{}
			}
			return &RV{t: pt.Elem(), addr: q}
		}
		return r
	})
	const v = "(reflect.Value)."
	reg(v+"Kind", func(t *Thread, fn *ssa.Function, a []Value) Value { return Const(64, uint64(rkind(t.rv(a[0]).t))) })
	reg(v+"Type", func(t *Thread, fn *ssa.Function, a []Value) Value {
		r := t.rv(a[0])
		if r.t == nil {
			panic(t.reflectPanic("call of reflect.Value.Type on zero Value"))
		}
		return rtypeIface(r.t)
	})
	reg(v+"IsValid", func(t *Thread, fn *ssa.Function, a []Value) Value { return CBool(t.rv(a[0]).t != nil) })
	reg(v+"IsNil", func(t *Thread, fn *ssa.Function, a []Value) Value {
		switch x := t.rv(a[0]).get().(type) {
		case *Slice:
			return CBool(x.arr == nil)
		case *Map:
			return CBool(x == nil)
		case *Value:
			return CBool(x == nil)
		case Iface:
			return CBool(x.t == nil)
		case *Closure:
			return CBool(x == nil)
		case *Chan:
			return CBool(x == nil)
		}
		panic(t.reflectPanic("call of reflect.Value.IsNil on non-nillable Value"))
	})
	reg(v+"Elem", func(t *Thread, fn *ssa.Function, a []Value) Value {
		r := t.rv(a[0])
		switch x := r.get().(type) {
		case Iface:
			if x.t == nil {
				return &RV{}
			}
			return &RV{t: x.t, v: x.v}
		case *Value:
			if x == nil {
				return &RV{}
			}
			return &RV{t: r.t.Underlying().(*types.Pointer).Elem(), addr: x}
		}
		panic(t.reflectPanic("call of reflect.Value.Elem"))
	})
	reg(v+"Len", func(t *Thread, fn *ssa.Function, a []Value) Value { return t.rvLen(a[0]) })
	reg(v+"Cap", func(t *Thread, fn *ssa.Function, a []Value) Value {
		if s, ok := t.rv(a[0]).get().(*Slice); ok {
			return s.cap
		}
		panic(unsupported("reflect Cap"))
	})
	reg(v+"Index", func(t *Thread, fn *ssa.Function, a []Value) Value {
		r := t.rv(a[0])
		switch x := r.get().(type) {
		case *Slice:
			t.boundsCheck(term(a[1]), x.len)
			i := int(t.cint(a[1]))
			off := int(t.m.Concretize(x.off))
			return &RV{t: r.t.Underlying().(*types.Slice).Elem(), addr: &x.arr[off+i]}
		case Struct:
			i := int(t.cint(a[1]))
			return &RV{t: r.t.Underlying().(*types.Array).Elem(), addr: &x[i]}
		}
		panic(unsupported("reflect Index"))
	})
	reg(v+"NumField", func(t *Thread, fn *ssa.Function, a []Value) Value {
		return CInt(int64(t.rv(a[0]).t.Underlying().(*types.Struct).NumFields()))
	})
	reg(v+"Field", func(t *Thread, fn *ssa.Function, a []Value) Value {
		r := t.rv(a[0])
		i := int(t.cint(a[1]))
		st := r.t.Underlying().(*types.Struct)
		s := r.get().(Struct)
		return &RV{t: st.Field(i).Type(), addr: &s[i]}
	})
	reg(v+"MapKeys", func(t *Thread, fn *ssa.Function, a []Value) Value {
		r := t.rv(a[0])
		mp, _ := r.get().(*Map)
		arr := []Value{}
		if mp != nil {
			for _, e := range mp.entries {
				arr = append(arr, &RV{t: mp.kt, v: copyVal(e.k)})
			}
		}
		return mkSlice(arr)
	})
	reg(v+"MapIndex", func(t *Thread, fn *ssa.Function, a []Value) Value {
		r := t.rv(a[0])
		mp, _ := r.get().(*Map)
		e := t.m.mapFind(mp, t.rvAssign(t.rv(a[1]), mp.kt))
		if e == nil {
			return &RV{}
		}
		return &RV{t: mp.vt, v: copyVal(e.v)}
	})
	reg(v+"SetMapIndex", func(t *Thread, fn *ssa.Function, a []Value) Value {
		r := t.rv(a[0])
		mp, _ := r.get().(*Map)
		if mp == nil {
			panic(t.m.plainRtPanic("assignment to entry in nil map"))
		}
		x := t.rv(a[2])
		k := t.rvAssign(t.rv(a[1]), mp.kt)
		if x.t == nil {
			t.m.mapDelete(mp, k)
			return nil
		}
		t.m.mapSet(mp, k, t.rvAssign(x, mp.vt))
		return nil
	})
	reg(v+"Set", func(t *Thread, fn *ssa.Function, a []Value) Value {
		r, x := t.rv(a[0]), t.rv(a[1])
		if r.addr == nil {
			panic(t.reflectPanic("reflect.Value.Set using unaddressable value"))
		}
		if x.t == nil {
			panic(t.reflectPanic("call of reflect.Value.Set on zero Value"))
		}
		storeVal(r.addr, t.rvAssign(x, r.t))
		return nil
	})
	reg(v+"CanSet", func(t *Thread, fn *ssa.Function, a []Value) Value { return CBool(t.rv(a[0]).addr != nil) })
	reg(v+"CanAddr", func(t *Thread, fn *ssa.Function, a []Value) Value { return CBool(t.rv(a[0]).addr != nil) })
	reg(v+"CanInterface", func(t *Thread, fn *ssa.Function, a []Value) Value { return True })
	reg(v+"Interface", func(t *Thread, fn *ssa.Function, a []Value) Value {
		r := t.rv(a[0])
		if r.t == nil {
			panic(t.reflectPanic("call of reflect.Value.Interface on zero Value"))
		}
		x := copyVal(r.get())
		if i, ok := x.(Iface); ok {
			if _, isI := r.t.Underlying().(*types.Interface); isI {
				return i
			}
		}
		return Iface{t: r.t, v: x}
	})
	reg(v+"String", func(t *Thread, fn *ssa.Function, a []Value) Value { return t.rv(a[0]).get() })
	reg(v+"Int", func(t *Thread, fn *ssa.Function, a []Value) Value {
		return t.m.tb.Resize(t.rv(a[0]).get().(*Term), 64, true)
	})
	reg(v+"Uint", func(t *Thread, fn *ssa.Function, a []Value) Value {
		return t.m.tb.Resize(t.rv(a[0]).get().(*Term), 64, false)
	})
	reg(v+"Bool", func(t *Thread, fn *ssa.Function, a []Value) Value { return t.rv(a[0]).get() })
	reg(v+"Float", func(t *Thread, fn *ssa.Function, a []Value) Value {
		if f, ok := t.rv(a[0]).get().(float32); ok {
			return float64(f)
		}
		return t.rv(a[0]).get()
	})

	reg("encoding/json.Marshal", func(t *Thread, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		var b jbuf
		if err := t.jsonEncode(&b, i.t, i.v, 0); err != nil {
			return Tuple{nilSlice, *err}
		}
		return Tuple{cellsSlice(b.cells), Iface{}}
	})
	reg("encoding/json.Unmarshal", func(t *Thread, fn *ssa.Function, a []Value) Value {
		cells := t.sliceCells(a[0].(*Slice))
		d := &jdec{t: t, c: cells}
		n, err := d.parseAll()
		if err != "" {
			return t.m.errStr(err)
		}
		dst := a[1].(Iface)
		pt, ok := dst.t.Underlying().(*types.Pointer)
		if !ok || dst.v.(*Value) == nil {
			return t.m.errStr("json: Unmarshal(non-pointer)")
		}
		if e := t.jsonAssign(n, pt.Elem(), dst.v.(*Value)); e != "" {
			return t.m.errStr(e)
		}
		return Iface{}
	})
	regFS()
	regFiles()
}

// rvAssign converts r's value for assignment to type t
func (t *Thread) rvAssign(r *RV, ty types.Type) Value {
	x := copyVal(r.get())
	if _, isI := ty.Underlying().(*types.Interface); isI {
		if _, already := r.t.Underlying().(*types.Interface); already {
			return x
		}
		return Iface{t: r.t, v: x}
	}
	if !types.AssignableTo(r.t, ty) {
		panic(t.reflectPanic("value of type " + r.t.String() + " is not assignable to type " + ty.String()))
	}
	return x
}

func (t *Thread) deepEqual(at types.Type, a Value, bt types.Type, b Value, d int) bool {
	m := t.m
	if at == nil || bt == nil {
		return at == nil && bt == nil
	}
	if !types.Identical(at, bt) {
		return false
	}
	if d > 20 {
		panic(unsupported("DeepEqual depth"))
	}
	switch u := at.Underlying().(type) {
	case *types.Interface:
		x, y := a.(Iface), b.(Iface)
		return t.deepEqual(x.t, x.v, y.t, y.v, d+1)
	case *types.Slice:
		x, y := a.(*Slice), b.(*Slice)
		if (x.arr == nil) != (y.arr == nil) || !m.Branch(m.tb.Eq(x.len, y.len)) {
			return false
		}
		for i := 0; i < int(m.Concretize(x.len)); i++ {
			if !t.deepEqual(u.Elem(), m.cell(x, i), u.Elem(), m.cell(y, i), d+1) {
				return false
			}
		}
		return true
	case *types.Map:
		x, y := a.(*Map), b.(*Map)
		if (x == nil) != (y == nil) {
			return false
		}
		if x == nil {
			return true
		}
		if x.n != y.n {
			return false
		}
		for _, e := range x.entries {
			f := m.mapFind(y, e.k)
			if f == nil || !t.deepEqual(u.Elem(), e.v, u.Elem(), f.v, d+1) {
				return false
			}
		}
		return true
	case *types.Struct:
		x, y := a.(Struct), b.(Struct)
		for i := range x {
			if !t.deepEqual(u.Field(i).Type(), x[i], u.Field(i).Type(), y[i], d+1) {
				return false
			}
		}
		return true
	case *types.Array:
		x, y := a.(Struct), b.(Struct)
		for i := range x {
			if !t.deepEqual(u.Elem(), x[i], u.Elem(), y[i], d+1) {
				return false
			}
		}
		return true
	case *types.Pointer:
		x, y := a.(*Value), b.(*Value)
		if x == y {
			return true
		}
		if x == nil || y == nil {
			return false
		}
		return t.deepEqual(u.Elem(), *x, u.Elem(), *y, d+1)
	}
	return m.Branch(m.equals(at, a, b))
}

// ---- JSON ----

type jbuf struct{ cells []*Term }

func (b *jbuf) str(s string) {
	for i := 0; i < len(s); i++ {
		b.cells = append(b.cells, Const(8, uint64(s[i])))
	}
}

func (t *Thread) jsonString(b *jbuf, v Value) {
	if s, ok := v.(string); ok {
		e, _ := json.Marshal(s)
		b.str(string(e))
		return
	}
	m := t.m
	tb := m.tb
	b.str("\"")
	cells := strCells(v)
	for i := 0; i < len(cells); {
		c := cells[i]
		if !m.Branch(tb.Bin(OpULt, c, Const(8, 0x80))) {
			r, n := t.decodeRune(mkStr(cells[i:]), 0)
			switch {
			case n == 1:
				b.str("\\ufffd")
			case m.Branch(tb.Or(tb.Eq(r, Const(32, 0x2028)), tb.Eq(r, Const(32, 0x2029)))):
				b.str("\\u202")
				b.cells = append(b.cells, tb.Ite(tb.Eq(r, Const(32, 0x2028)), Const(8, '8'), Const(8, '9')))
			default:
				b.cells = append(b.cells, cells[i:i+n]...)
			}
			i += n
			continue
		}
		i++
		plain := tb.Bin(OpULe, Const(8, 0x20), c)
		for _, x := range "\"\\<>&" {
			plain = tb.And(plain, tb.Not(tb.Eq(c, Const(8, uint64(x)))))
		}
		is := func(set string) bool {
			cond := False
			for _, x := range set {
				cond = tb.Or(cond, tb.Eq(c, Const(8, uint64(x))))
			}
			return m.Branch(cond)
		}
		switch {
		case m.Branch(plain):
			b.cells = append(b.cells, c)
		case is("\"\\"):
			b.str("\\")
			b.cells = append(b.cells, c)
		case is("\b"):
			b.str("\\b")
		case is("\f"):
			b.str("\\f")
		case is("\n"):
			b.str("\\n")
		case is("\r"):
			b.str("\\r")
		case is("\t"):
			b.str("\\t")
		default:
			hex := func(x *Term) *Term {
				return tb.Ite(tb.Bin(OpULt, x, Const(8, 10)), tb.Bin(OpAdd, x, Const(8, '0')), tb.Bin(OpAdd, x, Const(8, 'a'-10)))
			}
			b.str("\\u00")
			b.cells = append(b.cells, hex(tb.Bin(OpLShr, c, Const(8, 4))), hex(tb.Bin(OpBAnd, c, Const(8, 15))))
		}
	}
	b.str("\"")
}

func jsonTag(st *types.Struct, i int) (name string, omit, skip bool) {
	f := st.Field(i)
	tag := reflect.StructTag(st.Tag(i)).Get("json")
	if tag == "-" {
		return "", false, true
	}
	if !f.Exported() {
		return "", false, true
	}
	parts := strings.Split(tag, ",")
	name = parts[0]
	if name == "" {
		name = f.Name()
	}
	for _, o := range parts[1:] {
		if o == "omitempty" {
			omit = true
		}
	}
	return
}

func (t *Thread) jsonEncode(b *jbuf, ty types.Type, v Value, d int) *Iface {
	m := t.m
	if d > 30 {
		panic(unsupported("JSON depth"))
	}
	if ty == nil {
		b.str("null")
		return nil
	}
	if _, isI := ty.Underlying().(*types.Interface); !isI {
		if fn := m.ex.prog.methodByName(ty, "MarshalJSON"); fn != nil {
			if p, ok := v.(*Value); ok && p == nil {
				b.str("null")
				return nil
			}
			r := t.callSSA(fn, []Value{copyVal(v)}, nil).(Tuple)
			if e := r[1].(Iface); e.t != nil {
				return &e
			}
			b.cells = append(b.cells, t.sliceCells(r[0].(*Slice))...)
			return nil
		}
	}
	switch u := ty.Underlying().(type) {
	case *types.Interface:
		i := v.(Iface)
		return t.jsonEncode(b, i.t, i.v, d+1)
	case *types.Pointer:
		p := v.(*Value)
		if p == nil {
			b.str("null")
			return nil
		}
		return t.jsonEncode(b, u.Elem(), *p, d+1)
	case *types.Basic:
		if w, signed, ok := basicWidth(u.Kind()); ok {
			x := v.(*Term)
			if w == 0 {
				b.str(strconv.FormatBool(m.Branch(x)))
				return nil
			}
			c := m.Concretize(x)
			if signed {
				b.str(strconv.FormatInt(sext(c, w), 10))
			} else {
				b.str(strconv.FormatUint(c, 10))
			}
			return nil
		}
		switch x := v.(type) {
		case string, *SymStr:
			t.jsonString(b, x)
		case float64:
			e, err := json.Marshal(x)
			if err != nil {
				i := m.errStr(err.Error())
				return &i
			}
			b.str(string(e))
		case float32:
			e, _ := json.Marshal(x)
			b.str(string(e))
		default:
			panic(unsupported(fmt.Sprintf("JSON of %T", v)))
		}
		return nil
	case *types.Slice:
		s := v.(*Slice)
		if s.arr == nil {
			b.str("null")
			return nil
		}
		if w, _, ok := intInfo(u.Elem()); ok && w == 8 {
			raw := []byte(t.cstr(t.bytesToString(s)))
			e, _ := json.Marshal(raw)
			b.str(string(e))
			return nil
		}
		b.str("[")
		n := int(m.Concretize(s.len))
		for i := 0; i < n; i++ {
			if i > 0 {
				b.str(",")
			}
			if e := t.jsonEncode(b, u.Elem(), m.cell(s, i), d+1); e != nil {
				return e
			}
		}
		b.str("]")
		return nil
	case *types.Array:
		b.str("[")
		for i, x := range v.(Struct) {
			if i > 0 {
				b.str(",")
			}
			if e := t.jsonEncode(b, u.Elem(), x, d+1); e != nil {
				return e
			}
		}
		b.str("]")
		return nil
	case *types.Struct:
		b.str("{")
		first := true
		for i, x := range v.(Struct) {
			name, omit, skip := jsonTag(u, i)
			if skip {
				continue
			}
			if omit && t.jsonEmpty(x) {
				continue
			}
			if !first {
				b.str(",")
			}
			first = false
			t.jsonString(b, name)
			b.str(":")
			if e := t.jsonEncode(b, u.Field(i).Type(), x, d+1); e != nil {
				return e
			}
		}
		b.str("}")
		return nil
	case *types.Map:
		mp := v.(*Map)
		if mp == nil {
			b.str("null")
			return nil
		}
		if !isString(u.Key()) {
			panic(unsupported("JSON map key"))
		}
		ents := append([]*mapEntry{}, mp.entries...)
		for i := 1; i < len(ents); i++ {
			for j := i; j > 0; j-- {
				a, ok1 := ents[j].k.(string)
				c, ok2 := ents[j-1].k.(string)
				if ok1 && ok2 && a < c {
					ents[j], ents[j-1] = ents[j-1], ents[j]
				}
			}
		}
		b.str("{")
		for i, e := range ents {
			if i > 0 {
				b.str(",")
			}
			t.jsonString(b, e.k)
			b.str(":")
			if er := t.jsonEncode(b, u.Elem(), e.v, d+1); er != nil {
				return er
			}
		}
		b.str("}")
		return nil
	}
	i := m.errStr("json: unsupported type: " + ty.String())
	return &i
}

func (t *Thread) jsonEmpty(v Value) bool {
	switch x := v.(type) {
	case *Map:
		return x == nil || x.n == 0
	case *Slice:
		return x.arr == nil || t.m.Concretize(x.len) == 0
	case string, *SymStr:
		return strLen(x) == 0
	case *Value:
		return x == nil
	case Iface:
		return x.t == nil
	case *Term:
		return t.m.Branch(t.m.tb.Eq(x, Const(x.w, 0)))
	case float64:
		return x == 0
	}
	return false
}

type jnode struct {
	k    byte // n b d s a o
	b    bool
	num  string
	s    Value
	arr  []*jnode
	keys []Value
	raw  []*Term
}

type jdec struct {
	t *Thread
	c []*Term
	i int
}

func (d *jdec) peek() (byte, bool) {
	for d.i < len(d.c) {
		c := byte(d.t.m.Concretize(d.c[d.i]))
		if c == ' ' || c == '\n' || c == '\t' || c == '\r' {
			d.i++
			continue
		}
		return c, true
	}
	return 0, false
}

func (d *jdec) parseAll() (*jnode, string) {
	n, e := d.parse(0)
	if e != "" {
		return nil, e
	}
	if _, ok := d.peek(); ok {
		return nil, "invalid character after top-level value"
	}
	return n, ""
}

func (d *jdec) parse(depth int) (*jnode, string) {
	if depth > 40 {
		return nil, "exceeded max depth"
	}
	c, ok := d.peek()
	if !ok {
		return nil, "unexpected end of JSON input"
	}
	st := d.i
	fin := func(n *jnode) (*jnode, string) {
		n.raw = d.c[st:d.i]
		return n, ""
	}
	lit := func(s string, n *jnode) (*jnode, string) {
		for j := 0; j < len(s); j++ {
			if d.i >= len(d.c) {
				return nil, "unexpected end of JSON input"
			}
			if byte(d.t.m.Concretize(d.c[d.i])) != s[j] {
				return nil, "invalid character in literal " + s
			}
			d.i++
		}
		return fin(n)
	}
	switch {
	case c == 'n':
		return lit("null", &jnode{k: 'n'})
	case c == 't':
		return lit("true", &jnode{k: 'b', b: true})
	case c == 'f':
		return lit("false", &jnode{k: 'b'})
	case c == '"':
		s, e := d.str()
		if e != "" {
			return nil, e
		}
		return fin(&jnode{k: 's', s: s})
	case c == '-' || c >= '0' && c <= '9':
		var b []byte
		for d.i < len(d.c) {
			x := byte(d.t.m.Concretize(d.c[d.i]))
			if strings.IndexByte("+-0123456789.eE", x) < 0 {
				break
			}
			b = append(b, x)
			d.i++
		}
		if !json.Valid(b) {
			return nil, "invalid number literal"
		}
		return fin(&jnode{k: 'd', num: string(b)})
	case c == '[':
		d.i++
		n := &jnode{k: 'a'}
		if c, _ := d.peek(); c == ']' {
			d.i++
			return fin(n)
		}
		for {
			x, e := d.parse(depth + 1)
			if e != "" {
				return nil, e
			}
			n.arr = append(n.arr, x)
			c, ok := d.peek()
			if !ok {
				return nil, "unexpected end of JSON input"
			}
			d.i++
			if c == ']' {
				return fin(n)
			}
			if c != ',' {
				return nil, "invalid character after array element"
			}
		}
	case c == '{':
		d.i++
		n := &jnode{k: 'o'}
		if c, _ := d.peek(); c == '}' {
			d.i++
			return fin(n)
		}
		for {
			c, ok := d.peek()
			if !ok {
				return nil, "unexpected end of JSON input"
			}
			if c != '"' {
				return nil, "invalid character looking for beginning of object key string"
			}
			k, e := d.str()
			if e != "" {
				return nil, e
			}
			if c, _ := d.peek(); c != ':' {
				return nil, "invalid character after object key"
			}
			d.i++
			x, e := d.parse(depth + 1)
			if e != "" {
				return nil, e
			}
			n.keys = append(n.keys, k)
			n.arr = append(n.arr, x)
			c, ok = d.peek()
			if !ok {
				return nil, "unexpected end of JSON input"
			}
			d.i++
			if c == '}' {
				return fin(n)
			}
			if c != ',' {
				return nil, "invalid character after object key:value pair"
			}
		}
	}
	return nil, "invalid character looking for beginning of value"
}

func (d *jdec) str() (Value, string) {
	m := d.t.m
	d.i++ // opening quote
	var cells []*Term
	conc, started := true, false
	st := d.i
	for d.i < len(d.c) {
		c := d.c[d.i]
		if m.Branch(m.tb.Eq(c, Const(8, '"'))) {
			d.i++
			if !conc {
				return mkStr(cells), ""
			}
			b := []byte{'"'}
			for _, x := range d.c[st : d.i-1] {
				b = append(b, byte(x.c))
			}
			b = append(b, '"')
			var s string
			if err := json.Unmarshal(b, &s); err != nil {
				return nil, err.Error()
			}
			return s, ""
		}
		if !c.IsConst() {
			conc = false
		}
		if conc {
			if c.c == '\\' {
				cells = append(cells, c)
				d.i++
				if d.i >= len(d.c) {
					break
				}
				c = d.c[d.i]
				if !c.IsConst() {
					conc = false
					d.i--
					continue
				}
			} else if c.c < 0x20 {
				return nil, "invalid character in string literal"
			}
			cells = append(cells, c)
			d.i++
			continue
		}
		if !started {
			// start over, decoding one character at a time
			cells, d.i, started = nil, st, true
			continue
		}
		var e string
		if d.i, e = d.char(d.i, &cells); e != "" {
			return nil, e
		}
	}
	return nil, "unexpected end of JSON input"
}

// char decodes the character of a string literal at i
func (d *jdec) char(i int, out *[]*Term) (int, string) {
	m, tb := d.t.m, d.t.m.tb
	c := d.c[i]
	if m.Branch(tb.Bin(OpULt, c, Const(8, 0x20))) {
		return i, "invalid character in string literal"
	}
	if !m.Branch(tb.Bin(OpULt, c, Const(8, 0x80))) {
		_, n := d.t.decodeRune(mkStr(d.c[i:]), 0)
		if n == 1 {
			for _, x := range []byte("\ufffd") {
				*out = append(*out, Const(8, uint64(x)))
			}
		} else {
			*out = append(*out, d.c[i:i+n]...)
		}
		return i + n, ""
	}
	if !m.Branch(tb.Eq(c, Const(8, '\\'))) {
		*out = append(*out, c)
		return i + 1, ""
	}
	i++
	if i >= len(d.c) {
		return i, "unexpected end of JSON input"
	}
	c = d.c[i]
	for _, x := range "\"\\/" {
		if m.Branch(tb.Eq(c, Const(8, uint64(x)))) {
			*out = append(*out, Const(8, uint64(x)))
			return i + 1, ""
		}
	}
	for k, x := range "bfnrt" {
		if m.Branch(tb.Eq(c, Const(8, uint64(x)))) {
			*out = append(*out, Const(8, uint64("\b\f\n\r\t"[k])))
			return i + 1, ""
		}
	}
	if !m.Branch(tb.Eq(c, Const(8, 'u'))) {
		return i, "invalid character in string escape code"
	}
	if i+4 >= len(d.c) {
		return i, "unexpected end of JSON input"
	}
	r := Const(32, 0)
	for k := 1; k <= 4; k++ {
		x := d.c[i+k]
		in := func(lo, hi rune) *Term {
			return tb.And(tb.Bin(OpULe, Const(8, uint64(lo)), x), tb.Bin(OpULe, x, Const(8, uint64(hi))))
		}
		var v *Term
		switch {
		case m.Branch(in('0', '9')):
			v = tb.Bin(OpSub, x, Const(8, '0'))
		case m.Branch(in('a', 'f')):
			v = tb.Bin(OpSub, x, Const(8, 'a'-10))
		case m.Branch(in('A', 'F')):
			v = tb.Bin(OpSub, x, Const(8, 'A'-10))
		default:
			return i, "invalid character in \\u hexadecimal character escape"
		}
		r = tb.Bin(OpBOr, tb.Bin(OpShl, r, Const(32, 4)), tb.Resize(v, 32, false))
	}
	if m.Branch(tb.Bin(OpULt, r, Const(32, 0x80))) {
		*out = append(*out, tb.Resize(r, 8, false))
		return i + 5, ""
	}
	v := rune(m.Concretize(r))
	if v >= 0xd800 && v < 0xe000 {
		panic(unsupported("JSON escape of a surrogate in a symbolic string"))
	}
	for _, x := range []byte(string(v)) {
		*out = append(*out, Const(8, uint64(x)))
	}
	return i + 5, ""
}

func (t *Thread) jsonAny(n *jnode) Iface {
	any := types.NewInterfaceType(nil, nil)
	switch n.k {
	case 'n':
		return Iface{}
	case 'b':
		return Iface{t: types.Typ[types.Bool], v: CBool(n.b)}
	case 'd':
		f, _ := strconv.ParseFloat(n.num, 64)
		return Iface{t: types.Typ[types.Float64], v: f}
	case 's':
		return Iface{t: types.Typ[types.String], v: n.s}
	case 'a':
		arr := []Value{}
		for _, x := range n.arr {
			arr = append(arr, t.jsonAny(x))
		}
		return Iface{t: types.NewSlice(any), v: mkSlice(arr)}
	case 'o':
		mp := &Map{kt: types.Typ[types.String], vt: any}
		for i, x := range n.arr {
			t.m.mapSet(mp, n.keys[i], t.jsonAny(x))
		}
		return Iface{t: types.NewMap(types.Typ[types.String], any), v: mp}
	}
	return Iface{}
}

func (t *Thread) jsonAssign(n *jnode, ty types.Type, dst *Value) string {
	m := t.m
	if _, isI := ty.Underlying().(*types.Interface); !isI && n.k != 'n' {
		if fn := m.ex.prog.methodByName(types.NewPointer(ty), "UnmarshalJSON"); fn != nil {
			r := t.callSSA(fn, []Value{dst, cellsSlice(append([]*Term{}, n.raw...))}, nil).(Iface)
			if r.t != nil {
				return m.showStr(t.formatVal('v', r))
			}
			return ""
		}
	}
	switch u := ty.Underlying().(type) {
	case *types.Interface:
		if u.NumMethods() > 0 {
			return "json: cannot unmarshal into Go value of type " + ty.String()
		}
		*dst = t.jsonAny(n)
		return ""
	case *types.Pointer:
		if n.k == 'n' {
			*dst = (*Value)(nil)
			return ""
		}
		p, _ := (*dst).(*Value)
		if p == nil {
			v := zero(u.Elem())
			p = &v
			*dst = p
		}
		return t.jsonAssign(n, u.Elem(), p)
	}
	if n.k == 'n' {
		switch ty.Underlying().(type) {
		case *types.Map, *types.Slice:
			*dst = zero(ty)
		}
		return ""
	}
	bad := "json: cannot unmarshal value into Go value of type " + ty.String()
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.Bool:
			if n.k != 'b' {
				return bad
			}
			*dst = CBool(n.b)
		case u.Info()&types.IsString != 0:
			if n.k != 's' {
				return bad
			}
			*dst = n.s
		case u.Info()&types.IsInteger != 0:
			w, signed, _ := basicWidth(u.Kind())
			if n.k != 'd' {
				return bad
			}
			if signed {
				x, err := strconv.ParseInt(n.num, 10, int(w))
				if err != nil {
					return bad
				}
				*dst = Const(w, uint64(x))
			} else {
				x, err := strconv.ParseUint(n.num, 10, int(w))
				if err != nil {
					return bad
				}
				*dst = Const(w, x)
			}
		case u.Kind() == types.Float64:
			if n.k != 'd' {
				return bad
			}
			f, _ := strconv.ParseFloat(n.num, 64)
			*dst = f
		default:
			return bad
		}
		return ""
	case *types.Slice:
		if n.k != 'a' {
			return bad
		}
		arr := make([]Value, len(n.arr))
		for i, x := range n.arr {
			arr[i] = zero(u.Elem())
			if e := t.jsonAssign(x, u.Elem(), &arr[i]); e != "" {
				return e
			}
		}
		*dst = mkSlice(arr)
		return ""
	case *types.Map:
		if n.k != 'o' {
			return bad
		}
		mp, _ := (*dst).(*Map)
		if mp == nil {
			mp = &Map{kt: u.Key(), vt: u.Elem()}
			*dst = mp
		}
		for i, x := range n.arr {
			v := zero(u.Elem())
			if e := t.jsonAssign(x, u.Elem(), &v); e != "" {
				return e
			}
			m.mapSet(mp, n.keys[i], v)
		}
		return ""
	case *types.Struct:
		if n.k != 'o' {
			return bad
		}
		s := (*dst).(Struct)
		for i, x := range n.arr {
			k, ok := n.keys[i].(string)
			if !ok {
				panic(unsupported("symbolic JSON object key"))
			}
			best := -1
			for f := 0; f < u.NumFields(); f++ {
				name, _, skip := jsonTag(u, f)
				if skip {
					continue
				}
				if name == k {
					best = f
					break
				}
				if best < 0 && strings.EqualFold(name, k) {
					best = f
				}
			}
			if best < 0 {
				continue
			}
			if e := t.jsonAssign(x, u.Field(best).Type(), &s[best]); e != "" {
				return e
			}
		}
		return ""
	}
	return bad
}

// ---- file system ----

type memFile struct {
	path   Value
	data   []*Term
	dir    bool
	denied bool // directory without permission to write and search for its owner
}

type memFS struct {
	files []*memFile
	ops   []Value
	obj   *Obj
	fail  bool
	vc    vclock
}

func (m *Machine) fsys() *memFS {
	if m.fs == nil {
		m.fs = &memFS{obj: m.newObj("fs")}
	}
	return m.fs
}

// cleanPath normalises a path lexically, as the operating system would
func (t *Thread) cleanPath(p Value) Value {
	if s, ok := p.(string); ok {
		return filepath.Clean(s)
	}
	fn := t.m.ex.prog.byPath["path/filepath"]
	if fn == nil {
		return p
	}
	return t.callSSA(fn.Func("Clean"), []Value{p}, nil)
}

func (t *Thread) fsOp(name string, path *Value, write bool) *memFS {
	*path = t.cleanPath(*path)
	f := t.m.fsys()
	t.yield(&pend{name: name, objs: []*Obj{f.obj}, write: true})
	t.acquire(f.vc)
	t.release(&f.vc)
	f.ops = append(f.ops, *path)
	return f
}

// fsDenied reports whether the directory of a file was created without
// permission to use it
func (t *Thread) fsDenied(f *memFS, path Value) bool {
	for _, x := range f.files {
		if n := strLen(x.path); x.denied && strLen(path) > n+1 {
			if t.m.Branch(t.m.tb.And(t.m.tb.strEq(strSlice(path, 0, n), x.path), t.m.tb.Eq(strCell(path, n), Const(8, '/')))) {
				return true
			}
		}
	}
	return false
}

// fsPartial is how much of a file is written before a modelled write fails
const fsPartial = 8

func (t *Thread) fsFind(f *memFS, path Value) *memFile {
	for _, x := range f.files {
		if t.m.tb.strEq(x.path, path).True() {
			return x
		}
	}
	for _, x := range f.files {
		if t.m.Branch(t.m.tb.strEq(x.path, path)) {
			return x
		}
	}
	return nil
}

// pathError builds an error carrying a marker for os.IsNotExist
func (t *Thread) pathError(op string, path Value, notExist bool) Iface {
	m := t.m
	pe := m.ex.prog.byPath["io/fs"].Type("PathError")
	if pe == nil {
		panic(unsupported("io/fs not loaded"))
	}
	msg := "input/output error"
	var inner Iface
	if notExist {
		inner = m.notExist()
	} else {
		inner = m.errStr(msg)
	}
	var st Value = Struct{op, path, inner}
	return Iface{t: types.NewPointer(pe.Type()), v: &st}
}

func (m *Machine) notExist() Iface {
	if i, ok := m.sync["ErrNotExist"].(Iface); ok {
		return i
	}
	i := m.errStr("no such file or directory")
	m.sync["ErrNotExist"] = i
	return i
}

func regFS() {
	isNE := func(t *Thread, fn *ssa.Function, a []Value) Value {
		e := a[0].(Iface)
		ne := t.m.notExist()
		for e.t != nil {
			if t.m.ifaceEq(e, ne).True() {
				return True
			}
			if s, ok := e.v.(*Value); ok && s != nil && strings.HasSuffix(e.t.String(), "fs.PathError") {
				e = (*s).(Struct)[2].(Iface)
				continue
			}
			break
		}
		return False
	}
	reg("os.IsNotExist", isNE)
	reg("os.Getwd", func(t *Thread, fn *ssa.Function, a []Value) Value { return Tuple{"/nd/cwd", Iface{}} })
	reg("os.Getenv", func(t *Thread, fn *ssa.Function, a []Value) Value { return "" })
	stat := func(t *Thread, fn *ssa.Function, a []Value) Value {
		f := t.fsOp("os.Stat", &a[0], false)
		if t.fsFind(f, a[0]) == nil {
			return Tuple{Iface{}, t.pathError("stat", a[0], true)}
		}
		return Tuple{Iface{}, Iface{}}
	}
	reg("os.Stat", stat)
	reg("os.Lstat", stat)
	reg("os.MkdirAll", func(t *Thread, fn *ssa.Function, a []Value) Value {
		f := t.fsOp("os.MkdirAll", &a[0], true)
		if t.fsFind(f, a[0]) == nil {
			f.files = append(f.files, &memFile{path: a[0], dir: true, denied: t.cint(a[1])&0300 != 0300})
		}
		return Iface{}
	})
	wr := func(t *Thread, fn *ssa.Function, a []Value) Value {
		f := t.fsOp("WriteFile", &a[0], true)
		if t.fsDenied(f, a[0]) {
			return t.pathError("open", a[0], false)
		}
		cells := t.sliceCells(a[1].(*Slice))
		fail := f.fail && len(cells) > fsPartial
		if fail {
			cells = cells[:fsPartial]
		}
		if x := t.fsFind(f, a[0]); x != nil {
			x.data = cells
		} else {
			f.files = append(f.files, &memFile{path: a[0], data: cells})
		}
		if fail {
			return t.pathError("write", a[0], false)
		}
		return Iface{}
	}
	reg("io/ioutil.WriteFile", wr)
	reg("os.WriteFile", wr)
	rd := func(t *Thread, fn *ssa.Function, a []Value) Value {
		f := t.fsOp("ReadFile", &a[0], false)
		x := t.fsFind(f, a[0])
		if x == nil {
			return Tuple{nilSlice, t.pathError("open", a[0], true)}
		}
		if x.dir {
			return Tuple{nilSlice, t.pathError("read", a[0], false)}
		}
		return Tuple{cellsSlice(x.data), Iface{}}
	}
	reg("io/ioutil.ReadFile", rd)
	reg("os.ReadFile", rd)
	reg("os.Remove", func(t *Thread, fn *ssa.Function, a []Value) Value {
		f := t.fsOp("os.Remove", &a[0], true)
		x := t.fsFind(f, a[0])
		if x == nil {
			return t.pathError("remove", a[0], true)
		}
		var out []*memFile
		for _, y := range f.files {
			if y != x {
				out = append(out, y)
			}
		}
		f.files = out
		return Iface{}
	})
	reg("os.Rename", func(t *Thread, fn *ssa.Function, a []Value) Value {
		f := t.fsOp("os.Rename", &a[0], true)
		a[1] = t.cleanPath(a[1])
		f.ops = append(f.ops, a[1])
		x := t.fsFind(f, a[0])
		if x == nil {
			return t.pathError("rename", a[0], true)
		}
		if y := t.fsFind(f, a[1]); y != nil && y != x {
			var out []*memFile
			for _, z := range f.files {
				if z != y {
					out = append(out, z)
				}
			}
			f.files = out
		}
		x.path = a[1]
		return Iface{}
	})
}

// presetGlobals initialises the globals of packages whose initialisers are not
// executed
func presetGlobals(m *Machine, t *Thread, pkg *ssa.Package) {
	set := func(name string, v Value) {
		if g, ok := pkg.Members[name].(*ssa.Global); ok {
			*m.globals[m.ex.prog.gid[g]] = v
		}
	}
	switch pkg.Pkg.Path() {
	case "os":
		set("Args", mkSlice([]Value{"/nd/cwd/prog"}))
		for _, n := range []string{"Stdout", "Stderr", "Stdin"} {
			if g, ok := pkg.Members[n].(*ssa.Global); ok {
				el := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Pointer).Elem()
				v := zero(el)
				*m.globals[m.ex.prog.gid[g]] = &v
			}
		}
		for _, n := range []string{"ErrNotExist", "ErrExist", "ErrClosed", "ErrPermission", "ErrInvalid"} {
			set(n, m.osErr(n))
		}
	case "time":
		for _, n := range []string{"UTC", "Local"} {
			if g, ok := pkg.Members[n].(*ssa.Global); ok {
				b := "utcLoc"
				if n == "Local" {
					b = "localLoc"
				}
				if lg, ok := pkg.Members[b].(*ssa.Global); ok {
					*m.globals[m.ex.prog.gid[g]] = m.globals[m.ex.prog.gid[lg]]
				}
			}
		}
		if g, ok := pkg.Members["utcLoc"].(*ssa.Global); ok {
			el := g.Type().Underlying().(*types.Pointer).Elem()
			(*m.globals[m.ex.prog.gid[g]]).(Struct)[fieldIndex(el, "name")] = "UTC"
		}
		if g, ok := pkg.Members["localLoc"].(*ssa.Global); ok {
			el := g.Type().Underlying().(*types.Pointer).Elem()
			(*m.globals[m.ex.prog.gid[g]]).(Struct)[fieldIndex(el, "name")] = "UTC"
		}
		for _, n := range []string{"errBad", "errLeadingInt", "errLocation"} {
			set(n, m.errStr(n))
		}
		for n, xs := range map[string][]string{
			"longDayNames":   {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"},
			"shortDayNames":  {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"},
			"longMonthNames": {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"},
		} {
			arr := []Value{}
			for _, x := range xs {
				arr = append(arr, x)
			}
			set(n, mkSlice(arr))
		}
	case "sync", "runtime":
	case "net":
		for _, n := range []string{"ErrClosed", "errClosing"} {
			set(n, m.errStr("use of closed network connection"))
		}
	}
}
