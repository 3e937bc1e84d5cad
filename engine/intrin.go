package main

// Intrinsics: the nondeterminism API and models of runtime/standard library
// functions that cannot (or need not) be executed from source.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}

func lookupIntrinsic(name string) intrinsic { return intrinsics[name] }

func reg(name string, f intrinsic) { intrinsics[name] = f }

type poolState struct {
	items []Iface
	vcs   []vclock
}

func (m *Machine) errStr(msg string) Iface { return m.errVal(msg) }

func (m *Machine) errVal(s Value) Iface {
	var st Value = Struct{s}
	return Iface{t: m.ex.prog.errStrType, v: &st}
}

func (m *Machine) plainRtPanic(msg string) targetPanic {
	return targetPanic{v: Iface{t: m.ex.prog.rtErrType, v: msg}}
}

// panicText renders a panic value
func (m *Machine) panicText(t *Thread, v Iface) string {
	if v.t == nil {
		return "nil"
	}
	if types.Identical(v.t, m.ex.prog.rtErrType) {
		return "runtime error: " + m.showStr(v.v)
	}
	defer func() { recover() }()
	s := t.formatVal('v', v)
	return m.showStr(s)
}

func (m *Machine) showStr(v Value) string {
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		var b strings.Builder
		for _, c := range s.cells {
			if c.IsConst() {
				b.WriteByte(byte(c.c))
			} else if m.model != nil {
				b.WriteString(fmt.Sprintf("\\x%02x", m.model.Eval(c)))
			} else {
				b.WriteByte('?')
			}
		}
		return b.String()
	}
	return fmt.Sprintf("%v", v)
}

func (t *Thread) cstr(v Value) string {
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		b := make([]byte, len(s.cells))
		for i, c := range s.cells {
			b[i] = byte(t.m.Concretize(c))
		}
		return string(b)
	}
	panic(unsupported(fmt.Sprintf("string expected, got %T", v)))
}

func term(v Value) *Term { return v.(*Term) }

func (t *Thread) cint(v Value) int64 {
	x := v.(*Term)
	return sext(t.m.Concretize(x), x.w)
}

func label(args []Value) string {
	s, ok := args[0].(string)
	if !ok {
		panic(unsupported("symbolic label"))
	}
	return s
}

func init() {
	// ---- nd API ----
	const nd = "verifh/nd."
	for n, w := range map[string]uint8{"Byte": 8, "Bool": 0, "Uint16": 16, "Uint32": 32, "Uint64": 64} {
		w := w
		reg(nd+n, func(t *Thread, fn *ssa.Function, a []Value) Value { return t.m.newVar(label(a), w) })
	}
	reg(nd+"Int", func(t *Thread, fn *ssa.Function, a []Value) Value {
		m := t.m
		lo, hi := term(a[1]), term(a[2])
		if lo.IsConst() && hi.IsConst() && lo.Signed() >= 0 && hi.Signed() < 256 {
			// a narrow variable keeps the terms small
			v := m.newVar(label(a), 8)
			m.Assume(m.tb.And(m.tb.Bin(OpULe, Const(8, lo.c), v), m.tb.Bin(OpULe, v, Const(8, hi.c))))
			return m.tb.Resize(v, 64, false)
		}
		v := m.newVar(label(a), 64)
		m.Assume(m.tb.And(m.tb.Bin(OpSLe, lo, v), m.tb.Bin(OpSLe, v, hi)))
		return v
	})
	bytesN := func(t *Thread, l string, n int) []Value {
		arr := make([]Value, n)
		for i := range arr {
			arr[i] = t.m.newVar(l, 8)
		}
		return arr
	}
	reg(nd+"Bytes", func(t *Thread, fn *ssa.Function, a []Value) Value {
		return mkSlice(bytesN(t, label(a), int(t.cint(a[1]))))
	})
	reg(nd+"Rand", func(t *Thread, fn *ssa.Function, a []Value) Value {
		c := t.m.randLog
		t.m.randLog = nil
		return cellsSlice(c)
	})
	reg(nd+"BytesUpTo", func(t *Thread, fn *ssa.Function, a []Value) Value {
		m := t.m
		mx := int(t.cint(a[1]))
		w := uint8(8)
		if mx > 255 {
			w = 16
		}
		v := m.newVar(label(a)+".len", w)
		m.Assume(m.tb.Bin(OpULe, v, Const(w, uint64(mx))))
		n := m.tb.Resize(v, 64, false)
		return &Slice{arr: bytesN(t, label(a), mx), off: CInt(0), len: n, cap: n}
	})
	reg(nd+"String", func(t *Thread, fn *ssa.Function, a []Value) Value {
		n := int(t.cint(a[1]))
		cells := make([]*Term, n)
		for i := range cells {
			cells[i] = t.m.newVar(label(a), 8)
		}
		return mkStr(cells)
	})
	reg(nd+"Choice", func(t *Thread, fn *ssa.Function, a []Value) Value {
		n := int(t.cint(a[1]))
		m := t.m
		k := m.Choose(n)
		full := "choice:" + label(a)
		i := m.nvar[full]
		m.nvar[full] = i + 1
		m.choices = append(m.choices, choiceRec{fmt.Sprintf("%s#%d", full, i), uint64(k)})
		return CInt(int64(k))
	})
	reg(nd+"Concretize", func(t *Thread, fn *ssa.Function, a []Value) Value {
		x := term(a[0])
		return Const(x.w, t.m.Concretize(x))
	})
	reg(nd+"Assume", func(t *Thread, fn *ssa.Function, a []Value) Value { t.m.Assume(term(a[0])); return nil })
	reg(nd+"Assert", func(t *Thread, fn *ssa.Function, a []Value) Value {
		l, ok := a[1].(string)
		if !ok {
			l = "assertion"
		}
		t.m.Assert(t, term(a[0]), l, "assert")
		return nil
	})
	reg(nd+"Fail", func(t *Thread, fn *ssa.Function, a []Value) Value {
		t.m.Assert(t, False, label(a), "assert")
		return nil
	})
	reg(nd+"Cover", func(t *Thread, fn *ssa.Function, a []Value) Value {
		t.m.ex.noteCover(label(a))
		return nil
	})
	reg(nd+"Note", func(t *Thread, fn *ssa.Function, a []Value) Value {
		t.m.note(t.m.showStr(a[0]))
		return nil
	})
	reg(nd+"Observe", func(t *Thread, fn *ssa.Function, a []Value) Value {
		t.m.obs = append(t.m.obs, obsRec{label(a), t.sliceCells(a[1].(*Slice))})
		return nil
	})
	reg(nd+"ObserveInt", func(t *Thread, fn *ssa.Function, a []Value) Value {
		x := term(a[1])
		t.m.obs = append(t.m.obs, obsRec{label(a), []*Term{t.m.tb.Resize(x, 8, false), t.m.tb.Resize(t.m.tb.Bin(OpLShr, x, Const(x.w, 8)), 8, false)}})
		return nil
	})
	reg(nd+"Quiesce", func(t *Thread, fn *ssa.Function, a []Value) Value {
		t.yield(&pend{name: "quiesce", quiesce: true})
		return nil
	})
	reg(nd+"Live", func(t *Thread, fn *ssa.Function, a []Value) Value {
		n := 0
		for _, x := range t.m.threads {
			if !x.done && x != t && !x.daemon {
				n++
			}
		}
		return CInt(int64(n))
	})
	reg(nd+"Point", func(t *Thread, fn *ssa.Function, a []Value) Value {
		l := label(a)
		o := t.m.named[l]
		if o == nil {
			o = t.m.newObj("point " + l)
			t.m.named[l] = o
		}
		t.yield(&pend{name: "point " + l, objs: []*Obj{o}, write: true})
		return nil
	})
	reg(nd+"Tier", func(t *Thread, fn *ssa.Function, a []Value) Value { return CInt(int64(t.m.ex.tier)) })
	reg(nd+"Symbolic", func(t *Thread, fn *ssa.Function, a []Value) Value { return True })
	reg(nd+"And", func(t *Thread, fn *ssa.Function, a []Value) Value { return t.m.tb.And(term(a[0]), term(a[1])) })
	reg(nd+"Or", func(t *Thread, fn *ssa.Function, a []Value) Value { return t.m.tb.Or(term(a[0]), term(a[1])) })
	reg(nd+"Not", func(t *Thread, fn *ssa.Function, a []Value) Value { return t.m.tb.Not(term(a[0])) })
	reg(nd+"Implies", func(t *Thread, fn *ssa.Function, a []Value) Value {
		return t.m.tb.Or(t.m.tb.Not(term(a[0])), term(a[1]))
	})
	reg(nd+"EqBytes", func(t *Thread, fn *ssa.Function, a []Value) Value {
		return t.m.eqBytes(a[0].(*Slice), a[1].(*Slice))
	})
	reg(nd+"EqString", func(t *Thread, fn *ssa.Function, a []Value) Value { return t.m.tb.strEq(a[0], a[1]) })
	reg(nd+"IteInt", func(t *Thread, fn *ssa.Function, a []Value) Value {
		return t.m.tb.Ite(term(a[0]), term(a[1]), term(a[2]))
	})
	reg(nd+"TempDir", func(t *Thread, fn *ssa.Function, a []Value) Value { return "/nd/a/b/c/d" })
	reg(nd+"FSPaths", func(t *Thread, fn *ssa.Function, a []Value) Value {
		arr := []Value{}
		for _, p := range t.m.fsys().ops {
			arr = append(arr, p)
		}
		return mkSlice(arr)
	})
	reg(nd+"FSFail", func(t *Thread, fn *ssa.Function, a []Value) Value {
		t.m.fsys().fail = t.m.Branch(term(a[0]))
		return nil
	})

	// ---- locks ----
	for _, p := range []string{"sync.", "internal/sync."} {
		reg("(*"+p+"Mutex).Lock", func(t *Thread, fn *ssa.Function, a []Value) Value { t.lock(a[0]); return nil })
		reg("(*"+p+"Mutex).Unlock", func(t *Thread, fn *ssa.Function, a []Value) Value { t.unlock(a[0]); return nil })
		reg("(*"+p+"Mutex).TryLock", func(t *Thread, fn *ssa.Function, a []Value) Value { return CBool(t.tryLock(a[0])) })
	}
	reg("(*sync.RWMutex).Lock", func(t *Thread, fn *ssa.Function, a []Value) Value { t.rwlock(a[0]); return nil })
	reg("(*sync.RWMutex).Unlock", func(t *Thread, fn *ssa.Function, a []Value) Value { t.unlock(a[0]); return nil })
	reg("(*sync.RWMutex).RLock", func(t *Thread, fn *ssa.Function, a []Value) Value { t.rlock(a[0]); return nil })
	reg("(*sync.RWMutex).RUnlock", func(t *Thread, fn *ssa.Function, a []Value) Value { t.runlock(a[0]); return nil })
	reg("(*sync.RWMutex).TryLock", func(t *Thread, fn *ssa.Function, a []Value) Value { return CBool(t.tryLock(a[0])) })
	reg("(*sync.RWMutex).TryRLock", func(t *Thread, fn *ssa.Function, a []Value) Value { return CBool(t.tryRLock(a[0])) })
	reg("(*sync.WaitGroup).Add", func(t *Thread, fn *ssa.Function, a []Value) Value { t.wgAdd(a[0], t.cint(a[1])); return nil })
	reg("(*sync.WaitGroup).Done", func(t *Thread, fn *ssa.Function, a []Value) Value { t.wgAdd(a[0], -1); return nil })
	reg("(*sync.WaitGroup).Wait", func(t *Thread, fn *ssa.Function, a []Value) Value { t.wgWait(a[0]); return nil })
	reg("(*sync.WaitGroup).Go", func(t *Thread, fn *ssa.Function, a []Value) Value {
		t.wgAdd(a[0], 1)
		f := a[1]
		wg := a[0]
		n := t.m.newThread(t, "wg.Go")
		n.pend = &pend{name: "start", local: true}
		n.goRun(func() {
			n.pend = nil
			n.callValue(f, nil, nil)
			n.wgAdd(wg, -1)
		})
		return nil
	})
	reg("(*sync.Cond).Wait", func(t *Thread, fn *ssa.Function, a []Value) Value {
		m := t.m
		p := t.ptrArg(a[0])
		s := m.condOf(p)
		l := (*p).(Struct)[condLField(fn)].(Iface)
		w := &waiter{t: t}
		t.yield(&pend{name: "Cond.Wait", objs: []*Obj{s.obj}, write: true})
		s.waiters = append(s.waiters, w)
		t.invoke(l, "Unlock")
		t.block("Cond.Wait", func() bool { return w.done })
		t.woken(w)
		t.invoke(l, "Lock")
		return nil
	})
	condWake := func(all bool) intrinsic {
		return func(t *Thread, fn *ssa.Function, a []Value) Value {
			s := t.m.condOf(t.ptrArg(a[0]))
			t.yield(&pend{name: "Cond.Signal", objs: []*Obj{s.obj}, write: true})
			for len(s.waiters) > 0 {
				w := s.waiters[0]
				s.waiters = s.waiters[1:]
				var vc vclock
				t.release(&vc)
				w.vc = vc
				t.wake(w)
				if !all {
					break
				}
			}
			return nil
		}
	}
	reg("(*sync.Cond).Signal", condWake(false))
	reg("(*sync.Cond).Broadcast", condWake(true))
	reg("(*sync.Once).Do", func(t *Thread, fn *ssa.Function, a []Value) Value {
		p := t.ptrArg(a[0])
		m := t.m
		s, ok := m.sync[p].(*onceState)
		if !ok {
			s = &onceState{obj: m.newObj("once")}
			m.sync[p] = s
		}
		t.yield(&pend{name: "Once.Do", objs: []*Obj{s.obj}, write: true, enabled: func() bool { return !s.running }})
		if s.done {
			t.acquire(s.vc)
			return nil
		}
		s.running = true
		defer func() {
			s.running = false
			s.done = true
			t.release(&s.vc)
			m.touch(t, s.obj)
		}()
		t.callValue(a[1], nil, nil)
		return nil
	})
	reg("(*sync.Pool).Get", func(t *Thread, fn *ssa.Function, a []Value) Value {
		p := t.ptrArg(a[0])
		ps := t.m.poolOf(p)
		if n := len(ps.items); n > 0 {
			it := ps.items[n-1]
			ps.items = ps.items[:n-1]
			t.acquire(ps.vcs[n-1])
			ps.vcs = ps.vcs[:n-1]
			return it
		}
		s := (*p).(Struct)
		nf := s[len(s)-1]
		if c, _ := nf.(*Closure); c != nil {
			return t.callValue(c, nil, nil)
		}
		return Iface{}
	})
	reg("(*sync.Pool).Put", func(t *Thread, fn *ssa.Function, a []Value) Value {
		it := a[1].(Iface)
		if it.t == nil {
			return nil
		}
		ps := t.m.poolOf(t.ptrArg(a[0]))
		var vc vclock
		t.release(&vc)
		ps.items = append(ps.items, it)
		ps.vcs = append(ps.vcs, vc)
		return nil
	})
	regSyncMap()
	regAtomic()
	regTime()
	regStd()
	regModel()
}

type onceState struct {
	obj     *Obj
	running bool
	done    bool
	vc      vclock
}

type choiceRec struct {
	name string
	v    uint64
}

func condLField(fn *ssa.Function) int {
	st := fn.Signature.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "L" {
			return i
		}
	}
	return 1
}

func (m *Machine) poolOf(p *Value) *poolState {
	s := m.pools[p]
	if s == nil {
		s = &poolState{}
		m.pools[p] = s
	}
	return s
}

// invoke calls a method on an interface value by name
func (t *Thread) invoke(i Iface, name string, args ...Value) Value {
	if i.t == nil {
		panic(t.derefErr())
	}
	fn := t.m.ex.prog.methodByName(i.t, name)
	if fn == nil {
		panic(unsupported("method " + name + " of " + i.t.String()))
	}
	return t.callSSA(fn, append([]Value{copyVal(i.v)}, args...), nil)
}

func (m *Machine) eqBytes(a, b *Slice) *Term {
	tb := m.tb
	r := tb.Eq(a.len, b.len)
	if r.False() {
		return r
	}
	mx := len(a.arr)
	if len(b.arr) < mx {
		mx = len(b.arr)
	}
	if u := maxU(a.len); u < uint64(mx) {
		mx = int(u)
	}
	if u := maxU(b.len); u < uint64(mx) {
		mx = int(u)
	}
	if a.off == b.off && !a.off.IsConst() {
		// the same symbolic offset in both: compare position by position
		n := len(a.arr)
		if len(b.arr) < n {
			n = len(b.arr)
		}
		lo := 0
		if a.off.op == OpAdd && a.off.b.IsConst() && maxU(a.off.a) <= mask(64)-a.off.b.c {
			lo = int(a.off.b.c)
		}
		end := tb.Bin(OpAdd, a.off, a.len)
		for j := lo; j < n; j++ {
			x, y := a.arr[j].(*Term), b.arr[j].(*Term)
			if x == y {
				continue
			}
			in := tb.And(tb.Bin(OpULe, a.off, CInt(int64(j))), tb.Bin(OpULt, CInt(int64(j)), end))
			r = tb.And(r, tb.Or(tb.Not(in), tb.Eq(x, y)))
			if r.False() {
				return r
			}
		}
		return r
	}
	for i := 0; i < mx; i++ {
		in := tb.Bin(OpSLt, CInt(int64(i)), a.len)
		if in.False() {
			break
		}
		ia, ib := tb.Bin(OpAdd, a.off, CInt(int64(i))), tb.Bin(OpAdd, b.off, CInt(int64(i)))
		if ia.IsConst() && ia.c >= uint64(len(a.arr)) || ib.IsConst() && ib.c >= uint64(len(b.arr)) {
			break
		}
		x, y := m.selectCell(a.arr, ia).(*Term), m.selectCell(b.arr, ib).(*Term)
		r = tb.And(r, tb.Or(tb.Not(in), tb.Eq(x, y)))
		if r.False() {
			return r
		}
	}
	return r
}

// ---- sync.Map ----

type smState struct {
	obj *Obj
	mp  *Map
	vc  vclock
}

func (t *Thread) smap(v Value, write bool, name string) *smState {
	m := t.m
	p := t.ptrArg(v)
	s, ok := m.sync[p].(*smState)
	if !ok {
		any := types.NewInterfaceType(nil, nil)
		s = &smState{obj: m.newObj("sync.Map"), mp: &Map{kt: any, vt: any}}
		m.sync[p] = s
	}
	t.yield(&pend{name: name, objs: []*Obj{s.obj}, write: write})
	t.acquire(s.vc)
	if write {
		t.release(&s.vc)
	}
	return s
}

func regSyncMap() {
	const p = "(*sync.Map)."
	get := func(t *Thread, s *smState, k Value) (Value, bool) {
		if e := t.m.mapFind(s.mp, k); e != nil {
			return e.v, true
		}
		return Iface{}, false
	}
	reg(p+"Load", func(t *Thread, fn *ssa.Function, a []Value) Value {
		s := t.smap(a[0], false, "Map.Load")
		v, ok := get(t, s, a[1])
		return Tuple{v, CBool(ok)}
	})
	reg(p+"Store", func(t *Thread, fn *ssa.Function, a []Value) Value {
		s := t.smap(a[0], true, "Map.Store")
		t.m.mapSet(s.mp, a[1], a[2])
		return nil
	})
	reg(p+"LoadOrStore", func(t *Thread, fn *ssa.Function, a []Value) Value {
		s := t.smap(a[0], true, "Map.LoadOrStore")
		if v, ok := get(t, s, a[1]); ok {
			return Tuple{v, True}
		}
		t.m.mapSet(s.mp, a[1], a[2])
		return Tuple{a[2], False}
	})
	reg(p+"LoadAndDelete", func(t *Thread, fn *ssa.Function, a []Value) Value {
		s := t.smap(a[0], true, "Map.LoadAndDelete")
		v, ok := get(t, s, a[1])
		t.m.mapDelete(s.mp, a[1])
		return Tuple{v, CBool(ok)}
	})
	reg(p+"Delete", func(t *Thread, fn *ssa.Function, a []Value) Value {
		s := t.smap(a[0], true, "Map.Delete")
		t.m.mapDelete(s.mp, a[1])
		return nil
	})
	reg(p+"Range", func(t *Thread, fn *ssa.Function, a []Value) Value {
		s := t.smap(a[0], false, "Map.Range")
		for _, e := range append([]*mapEntry{}, s.mp.entries...) {
			if e.deleted {
				continue
			}
			if !t.m.Branch(t.callValue(a[1], []Value{e.k, e.v}, nil).(*Term)) {
				break
			}
		}
		return nil
	})
}

// ---- atomics ----

func (t *Thread) atomicMem(v Value, write bool, name string) *Value {
	p := t.ptrArg(v)
	t.atomicPoint(p, write, name)
	if fn, in := t.repoPos(); fn != nil && t.m.noSched == 0 {
		t.m.accessAtomic(t, p, write, in, fn)
	}
	return p
}

func regAtomic() {
	const p = "sync/atomic."
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg(p+"Load"+ty, func(t *Thread, fn *ssa.Function, a []Value) Value { return *t.atomicMem(a[0], false, "atomic load") })
		reg(p+"Store"+ty, func(t *Thread, fn *ssa.Function, a []Value) Value {
			q := t.atomicMem(a[0], true, "atomic store")
			*q = a[1]
			return nil
		})
		reg(p+"Swap"+ty, func(t *Thread, fn *ssa.Function, a []Value) Value {
			q := t.atomicMem(a[0], true, "atomic swap")
			o := *q
			*q = a[1]
			return o
		})
		reg(p+"CompareAndSwap"+ty, func(t *Thread, fn *ssa.Function, a []Value) Value {
			q := t.atomicMem(a[0], true, "atomic cas")
			var c *Term
			if x, ok := (*q).(*Term); ok {
				c = t.m.tb.Eq(x, a[1].(*Term))
			} else {
				c = CBool(*q == a[1])
			}
			if t.m.Branch(c) {
				*q = a[2]
				return True
			}
			return False
		})
		if ty == "Pointer" {
			continue
		}
		for _, op := range []struct {
			n string
			o Op
		}{{"Add", OpAdd}, {"And", OpBAnd}, {"Or", OpBOr}} {
			op := op
			reg(p+op.n+ty, func(t *Thread, fn *ssa.Function, a []Value) Value {
				q := t.atomicMem(a[0], true, "atomic "+op.n)
				old := (*q).(*Term)
				nv := t.m.tb.Bin(op.o, old, a[1].(*Term))
				*q = nv
				if op.n == "Add" {
					return nv
				}
				return old
			})
		}
	}
	const v = "(*sync/atomic.Value)."
	reg(v+"Load", func(t *Thread, fn *ssa.Function, a []Value) Value {
		q := t.atomicMem(a[0], false, "atomic load")
		return (*q).(Struct)[0]
	})
	reg(v+"Store", func(t *Thread, fn *ssa.Function, a []Value) Value {
		q := t.atomicMem(a[0], true, "atomic store")
		if a[1].(Iface).t == nil {
			panic(targetPanic{v: t.m.errStr("sync/atomic: store of nil value into Value"), where: t.where()})
		}
		(*q).(Struct)[0] = a[1]
		return nil
	})
	reg(v+"Swap", func(t *Thread, fn *ssa.Function, a []Value) Value {
		q := t.atomicMem(a[0], true, "atomic swap")
		o := (*q).(Struct)[0]
		(*q).(Struct)[0] = a[1]
		return o
	})
	reg(v+"CompareAndSwap", func(t *Thread, fn *ssa.Function, a []Value) Value {
		q := t.atomicMem(a[0], true, "atomic cas")
		if t.m.Branch(t.m.ifaceEq((*q).(Struct)[0].(Iface), a[1].(Iface))) {
			(*q).(Struct)[0] = a[2]
			return True
		}
		return False
	})
}

// ---- time ----

const unixToInternal = 62135596800

func (m *Machine) timeValue(ns int64) Value {
	// time.Time{wall, ext, loc}: no monotonic reading, UTC
	sec := ns / 1e9
	n := ns % 1e9
	return Struct{Const(64, uint64(n)), Const(64, uint64(sec+unixToInternal)), (*Value)(nil)}
}

func (t *Thread) newTimer(key *Value, ch *Chan, fn Value, d int64) *timerState {
	m := t.m
	if d < 0 {
		d = 0
	}
	tm := &timerState{key: key, ch: ch, fn: fn, when: m.now + d, active: true, seq: len(m.timers), obj: m.newObj("timer")}
	m.timers = append(m.timers, tm)
	if m.ex.opts.Eager {
		m.eagerTimer(t, tm)
	}
	return tm
}

// eagerTimer makes the timer an always enabled pseudo thread: it may fire at
// any moment
func (m *Machine) eagerTimer(parent *Thread, tm *timerState) {
	t := m.newThread(parent, "timer")
	t.daemon = true
	objs := []*Obj{tm.obj}
	if tm.ch != nil {
		objs = append(objs, tm.ch.obj)
	}
	t.pend = &pend{name: "timer", objs: objs, write: true, enabled: func() bool { return tm.active && tm.thread == t }}
	tm.thread = t
	t.goRun(func() {
		t.pend = nil
		tm.active = false
		if tm.ch != nil {
			if len(tm.ch.buf) < tm.ch.cap || liveWaiter(tm.ch.recvq) {
				t.trySend(tm.ch, m.timeValue(m.now))
			}
			return
		}
		t.callValue(tm.fn, nil, nil)
	})
}

func (m *Machine) timerOf(p *Value) *timerState {
	for _, tm := range m.timers {
		if tm.key == p {
			return tm
		}
	}
	return nil
}

func fieldIndex(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	panic("field " + name)
}

func regTime() {
	// rendering only: the text of an arbitrary duration is not modelled
	reg("(time.Duration).String", func(t *Thread, fn *ssa.Function, a []Value) Value {
		if d := a[0].(*Term); d.IsConst() {
			return time.Duration(int64(d.c)).String()
		}
		return "<duration>"
	})
	reg("time.Now", func(t *Thread, fn *ssa.Function, a []Value) Value { return t.m.timeValue(t.m.now) })
	reg("time.now", func(t *Thread, fn *ssa.Function, a []Value) Value {
		ns := t.m.now
		return Tuple{CInt(ns / 1e9), Const(32, uint64(ns%1e9)), CInt(ns)}
	})
	reg("time.runtimeNano", func(t *Thread, fn *ssa.Function, a []Value) Value { return CInt(t.m.now) })
	mkTimer := func(t *Thread, fn *ssa.Function, f Value, d int64) Value {
		tt := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		v := zero(tt)
		p := &v
		var ch *Chan
		if f == nil {
			ci := fieldIndex(tt, "C")
			et := tt.Underlying().(*types.Struct).Field(ci).Type().Underlying().(*types.Chan).Elem()
			ch = t.m.mkChan(1, et)
			v.(Struct)[ci] = ch
		}
		t.newTimer(p, ch, f, d)
		return p
	}
	reg("time.NewTimer", func(t *Thread, fn *ssa.Function, a []Value) Value { return mkTimer(t, fn, nil, t.cint(a[0])) })
	reg("time.NewTicker", func(t *Thread, fn *ssa.Function, a []Value) Value {
		p := mkTimer(t, fn, nil, t.cint(a[0]))
		t.m.timers[len(t.m.timers)-1].period = t.cint(a[0])
		return p
	})
	reg("time.AfterFunc", func(t *Thread, fn *ssa.Function, a []Value) Value { return mkTimer(t, fn, a[1], t.cint(a[0])) })
	reg("time.After", func(t *Thread, fn *ssa.Function, a []Value) Value {
		et := fn.Signature.Results().At(0).Type().Underlying().(*types.Chan).Elem()
		ch := t.m.mkChan(1, et)
		t.newTimer(nil, ch, nil, t.cint(a[0]))
		return ch
	})
	reg("time.Sleep", func(t *Thread, fn *ssa.Function, a []Value) Value {
		tt := t.m.ex.prog.byPath["time"].Type("Time").Type()
		ch := t.m.mkChan(1, tt)
		t.newTimer(nil, ch, nil, t.cint(a[0]))
		t.recv(ch)
		return nil
	})
	stop := func(t *Thread, fn *ssa.Function, a []Value) Value {
		tm := t.m.timerOf(t.ptrArg(a[0]))
		if tm == nil {
			panic(unsupported("Stop of unknown timer"))
		}
		if t.m.ex.opts.Eager {
			t.yield(&pend{name: "Timer.Stop", objs: []*Obj{tm.obj}, write: true})
		}
		was := tm.active
		tm.active = false
		if tm.ch != nil && !was {
			// Go 1.23 semantics: no stale value can be received after Stop
			was = len(tm.ch.buf) > 0
			tm.ch.buf = nil
		}
		return CBool(was)
	}
	reg("(*time.Timer).Stop", stop)
	reg("(*time.Ticker).Stop", func(t *Thread, fn *ssa.Function, a []Value) Value { stop(t, fn, a); return nil })
	reg("(*time.Timer).Reset", func(t *Thread, fn *ssa.Function, a []Value) Value {
		tm := t.m.timerOf(t.ptrArg(a[0]))
		if tm == nil {
			panic(unsupported("Reset of unknown timer"))
		}
		if t.m.ex.opts.Eager {
			t.yield(&pend{name: "Timer.Reset", objs: []*Obj{tm.obj}, write: true})
		}
		was := tm.active
		if tm.ch != nil {
			tm.ch.buf = nil
		}
		d := t.cint(a[1])
		if d < 0 {
			d = 0
		}
		tm.when = t.m.now + d
		tm.active = true
		if t.m.ex.opts.Eager && (tm.thread == nil || tm.thread.done || !was) {
			t.m.eagerTimer(t, tm)
		}
		return CBool(was)
	})
}

// ---- misc std ----

func regStd() {
	reg("runtime.Gosched", func(t *Thread, fn *ssa.Function, a []Value) Value {
		t.yield(&pend{name: "Gosched"})
		return nil
	})
	reg("runtime.GOMAXPROCS", func(t *Thread, fn *ssa.Function, a []Value) Value { return CInt(8) })
	reg("runtime.NumCPU", func(t *Thread, fn *ssa.Function, a []Value) Value { return CInt(8) })
	reg("runtime.NumGoroutine", func(t *Thread, fn *ssa.Function, a []Value) Value {
		n := 0
		for _, x := range t.m.threads {
			if !x.done {
				n++
			}
		}
		return CInt(int64(n))
	})
	nop := func(t *Thread, fn *ssa.Function, a []Value) Value { return zeroResult(fn.Signature) }
	for _, n := range []string{"runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "runtime/debug.PrintStack", "internal/race.Acquire", "internal/race.Release",
		"internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write", "internal/race.Errors"} {
		reg(n, nop)
	}
	reg("runtime/debug.Stack", func(t *Thread, fn *ssa.Function, a []Value) Value { return bytesSlice([]byte("stack")) })
	reg("(runtime.errorString).Error", func(t *Thread, fn *ssa.Function, a []Value) Value {
		return strConcat("runtime error: ", a[0])
	})
	id := func(t *Thread, fn *ssa.Function, a []Value) Value { return a[0] }
	reg("internal/abi.NoEscape", id)
	reg("internal/abi.Escape", id)
	reg("strings.noescape", id)
	reg("internal/stringslite.Clone", id)
	reg("strings.Clone", id)
	reg("internal/godebug.New", func(t *Thread, fn *ssa.Function, a []Value) Value {
		v := zero(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
		return &v
	})
	reg("(*internal/godebug.Setting).Value", func(t *Thread, fn *ssa.Function, a []Value) Value { return "" })
	reg("(*internal/godebug.Setting).IncNonDefault", nop)
	reg("context.contextName", func(t *Thread, fn *ssa.Function, a []Value) Value { return "ctx" })

	// logging produces no observable effect
	reg("log.New", func(t *Thread, fn *ssa.Function, a []Value) Value {
		v := zero(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
		return &v
	})
	reg("log.Default", func(t *Thread, fn *ssa.Function, a []Value) Value {
		v := zero(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
		return &v
	})
	for _, n := range []string{"Printf", "Println", "Print", "Output", "SetPrefix", "SetFlags", "SetOutput"} {
		reg("log."+n, nop)
		reg("(*log.Logger)."+n, func(t *Thread, fn *ssa.Function, a []Value) Value {
			t.ptrArg(a[0])
			return zeroResult(fn.Signature)
		})
	}
	for _, n := range []string{"Fatalf", "Fatal", "Fatalln"} {
		f := func(t *Thread, fn *ssa.Function, a []Value) Value { t.fatal("log.Fatal"); return nil }
		reg("log."+n, f)
		reg("(*log.Logger)."+n, f)
	}
	for _, n := range []string{"Panicf", "Panic", "Panicln"} {
		f := func(t *Thread, fn *ssa.Function, a []Value) Value {
			panic(targetPanic{v: Iface{t: types.Typ[types.String], v: "log.Panic"}, where: t.where()})
		}
		reg("log."+n, f)
		reg("(*log.Logger)."+n, f)
	}

	// fmt
	errorf := func(t *Thread, fn *ssa.Function, a []Value) Value {
		m := t.m
		f := t.cstr(a[0])
		args := t.anyArgs(a[1].(*Slice))
		s := t.format(f, args)
		var wrapped Iface
		if k := wrapIndex(f); k >= 0 && k < len(args) {
			wrapped = args[k]
		}
		if wrapped.t != nil {
			if wt := m.ex.prog.byPath["fmt"].Type("wrapError"); wt != nil && m.ex.prog.methodByName(wrapped.t, "Error") != nil {
				var st Value = Struct{s, wrapped}
				return Iface{t: types.NewPointer(wt.Type()), v: &st}
			}
		}
		return m.errVal(s)
	}
	reg("fmt.Errorf", errorf)
	reg("fmt.Sprintf", func(t *Thread, fn *ssa.Function, a []Value) Value {
		return t.format(t.cstr(a[0]), t.anyArgs(a[1].(*Slice)))
	})
	sprint := func(ln bool) intrinsic {
		return func(t *Thread, fn *ssa.Function, a []Value) Value {
			var out Value = ""
			args := t.anyArgs(a[0].(*Slice))
			for i, x := range args {
				if i > 0 {
					if ln || !(x.t != nil && isString(x.t)) && !(args[i-1].t != nil && isString(args[i-1].t)) {
						out = strConcat(out, " ")
					}
				}
				out = strConcat(out, t.formatVal('v', x))
			}
			if ln {
				out = strConcat(out, "\n")
			}
			return out
		}
	}
	reg("fmt.Sprint", sprint(false))
	reg("fmt.Sprintln", sprint(true))
	reg("fmt.Print", nop)
	reg("fmt.Printf", nop)
	reg("fmt.Println", nop)
	fpr := func(kind int) intrinsic {
		return func(t *Thread, fn *ssa.Function, a []Value) Value {
			w := a[0].(Iface)
			if w.t != nil && strings.Contains(w.t.String(), "os.File") {
				return zeroResult(fn.Signature)
			}
			var s Value
			if kind == 0 {
				s = t.format(t.cstr(a[1]), t.anyArgs(a[2].(*Slice)))
			} else {
				s = sprint(kind == 2)(t, fn, []Value{a[1]})
			}
			return t.invoke(w, "Write", cellsSlice(strCells(s)))
		}
	}
	reg("fmt.Fprintf", fpr(0))
	reg("fmt.Fprint", fpr(1))
	reg("fmt.Fprintln", fpr(2))

	// errors
	reg("errors.Is", func(t *Thread, fn *ssa.Function, a []Value) Value {
		return t.errorsIs(a[0].(Iface), a[1].(Iface), 0)
	})
	reg("errors.As", func(t *Thread, fn *ssa.Function, a []Value) Value {
		return t.errorsAs(a[0].(Iface), a[1].(Iface), 0)
	})

	// bytealg
	const ba = "internal/bytealg."
	str := func(v Value, t *Thread) []*Term {
		if s, ok := v.(*Slice); ok {
			return t.sliceCells(s)
		}
		return strCells(v)
	}
	idxByte := func(t *Thread, fn *ssa.Function, a []Value) Value {
		cs := str(a[0], t)
		c := term(a[1])
		for i, x := range cs {
			if t.m.Branch(t.m.tb.Eq(x, c)) {
				return CInt(int64(i))
			}
		}
		return CInt(-1)
	}
	reg(ba+"IndexByte", idxByte)
	reg(ba+"IndexByteString", idxByte)
	lastIdx := func(t *Thread, fn *ssa.Function, a []Value) Value {
		cs := str(a[0], t)
		c := term(a[1])
		for i := len(cs) - 1; i >= 0; i-- {
			if t.m.Branch(t.m.tb.Eq(cs[i], c)) {
				return CInt(int64(i))
			}
		}
		return CInt(-1)
	}
	reg(ba+"LastIndexByte", lastIdx)
	reg(ba+"LastIndexByteString", lastIdx)
	count := func(t *Thread, fn *ssa.Function, a []Value) Value {
		r := CInt(0)
		for _, x := range str(a[0], t) {
			r = t.m.tb.Bin(OpAdd, r, t.m.tb.Ite(t.m.tb.Eq(x, term(a[1])), CInt(1), CInt(0)))
		}
		return r
	}
	reg(ba+"Count", count)
	reg(ba+"CountString", count)
	index := func(t *Thread, fn *ssa.Function, a []Value) Value {
		x, y := str(a[0], t), str(a[1], t)
		for i := 0; i+len(y) <= len(x); i++ {
			c := True
			for j := range y {
				c = t.m.tb.And(c, t.m.tb.Eq(x[i+j], y[j]))
			}
			if t.m.Branch(c) {
				return CInt(int64(i))
			}
		}
		return CInt(-1)
	}
	for _, n := range []string{ba + "Index", ba + "IndexString", "strings.Index", "bytes.Index", "internal/stringslite.Index"} {
		reg(n, index)
	}
	reg("strings.IndexByte", idxByte)
	reg("bytes.IndexByte", idxByte)
	reg("internal/stringslite.IndexByte", idxByte)
	reg("bytes.Equal", func(t *Thread, fn *ssa.Function, a []Value) Value { return t.m.eqBytes(a[0].(*Slice), a[1].(*Slice)) })
	reg(ba+"Equal", func(t *Thread, fn *ssa.Function, a []Value) Value { return t.m.eqBytes(a[0].(*Slice), a[1].(*Slice)) })
	cmp := func(t *Thread, fn *ssa.Function, a []Value) Value {
		x, y := mkStr(str(a[0], t)), mkStr(str(a[1], t))
		tb := t.m.tb
		return tb.Ite(tb.strEq(x, y), CInt(0), tb.Ite(tb.strLess(x, y), CInt(-1), CInt(1)))
	}
	for _, n := range []string{ba + "Compare", ba + "CompareString", "bytes.Compare", "strings.Compare", "cmp.Compare[string]"} {
		reg(n, cmp)
	}
	reg(ba+"MakeNoZero", func(t *Thread, fn *ssa.Function, a []Value) Value {
		return t.makeSlice(types.Typ[types.Uint8], term(a[0]), term(a[0]))
	})

	// crypto/rand
	rnd := func(t *Thread, s *Slice) Value {
		m := t.m
		n := int(m.Concretize(s.len))
		for i := 0; i < n; i++ {
			v := m.newVar("rand", 8)
			m.randLog = append(m.randLog, v)
			m.setCell(s, i, v)
		}
		return Tuple{CInt(int64(n)), Iface{}}
	}
	weak := func(t *Thread, s *Slice) Value {
		m := t.m
		n := int(m.Concretize(s.len))
		for i := 0; i < n; i++ {
			m.setCell(s, i, m.newVar("mrand", 8))
		}
		return Tuple{CInt(int64(n)), Iface{}}
	}
	reg("(crypto/internal/rand.reader).Read", func(t *Thread, fn *ssa.Function, a []Value) Value { return rnd(t, a[1].(*Slice)) })
	reg("(*crypto/internal/rand.reader).Read", func(t *Thread, fn *ssa.Function, a []Value) Value { return rnd(t, a[1].(*Slice)) })
	reg("crypto/rand.Read", func(t *Thread, fn *ssa.Function, a []Value) Value { return rnd(t, a[0].(*Slice)) })
	reg("math/rand.Read", func(t *Thread, fn *ssa.Function, a []Value) Value { return weak(t, a[0].(*Slice)) })
	rint := func(w uint8) intrinsic {
		return func(t *Thread, fn *ssa.Function, a []Value) Value {
			m := t.m
			v := m.newVar("mrand", w)
			if len(a) > 0 {
				m.Assume(m.tb.Bin(OpULt, v, a[0].(*Term)))
			}
			return v
		}
	}
	reg("math/rand.Intn", rint(64))
	reg("math/rand.Int63", func(t *Thread, fn *ssa.Function, a []Value) Value {
		v := t.m.newVar("mrand", 64)
		return t.m.tb.Bin(OpLShr, v, Const(64, 1))
	})
	reg("math/rand.Uint32", rint(32))
	reg("math/rand.Seed", nop)

	// sort / reflectlite
	reg("internal/reflectlite.TypeOf", func(t *Thread, fn *ssa.Function, a []Value) Value {
		return rtypeIface(a[0].(Iface).t)
	})
	reg("internal/reflectlite.ValueOf", func(t *Thread, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		return &RV{t: i.t, v: i.v}
	})
	reg("(internal/reflectlite.Value).Len", func(t *Thread, fn *ssa.Function, a []Value) Value { return t.rvLen(a[0]) })
	reg("internal/reflectlite.Swapper", func(t *Thread, fn *ssa.Function, a []Value) Value {
		s := a[0].(Iface).v.(*Slice)
		return &Closure{nat: func(t *Thread, x []Value) Value {
			i, j := int(t.cint(x[0])), int(t.cint(x[1]))
			vi, vj := copyVal(t.m.cell(s, i)), copyVal(t.m.cell(s, j))
			t.m.setCell(s, i, vj)
			t.m.setCell(s, j, vi)
			return nil
		}}
	})
	reg("strconv.Itoa", func(t *Thread, fn *ssa.Function, a []Value) Value {
		return strconv.FormatInt(t.cint(a[0]), 10)
	})
}

func (t *Thread) anyArgs(s *Slice) []Iface {
	n := int(t.m.Concretize(s.len))
	out := make([]Iface, n)
	for i := range out {
		out[i] = t.m.cell(s, i).(Iface)
	}
	return out
}

func (t *Thread) errorsIs(err, target Iface, d int) *Term {
	m := t.m
	if err.t == nil || target.t == nil {
		return CBool(err.t == nil && target.t == nil)
	}
	if d > 20 {
		return False
	}
	if types.Comparable(target.t) && m.Branch(m.ifaceEq(err, target)) {
		return True
	}
	if f := m.ex.prog.methodByName(err.t, "Is"); f != nil {
		if m.Branch(t.callSSA(f, []Value{copyVal(err.v), target}, nil).(*Term)) {
			return True
		}
	}
	if f := m.ex.prog.methodByName(err.t, "Unwrap"); f != nil {
		switch r := t.callSSA(f, []Value{copyVal(err.v)}, nil).(type) {
		case Iface:
			if r.t == nil {
				return False
			}
			return t.errorsIs(r, target, d+1)
		case *Slice:
			for i := 0; i < int(m.Concretize(r.len)); i++ {
				if t.errorsIs(m.cell(r, i).(Iface), target, d+1).True() {
					return True
				}
			}
		}
	}
	return False
}

func (t *Thread) errorsAs(err, target Iface, d int) *Term {
	m := t.m
	if err.t == nil || d > 20 {
		return False
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		panic(targetPanic{v: m.errStr("errors: target must be a non-nil pointer"), where: t.where()})
	}
	el := pt.Elem()
	if it, isI := el.Underlying().(*types.Interface); isI {
		if m.ex.prog.implements(err.t, it) {
			storeVal(target.v.(*Value), err)
			return True
		}
	} else if types.Identical(el, err.t) {
		storeVal(target.v.(*Value), err.v)
		return True
	}
	if f := m.ex.prog.methodByName(err.t, "Unwrap"); f != nil {
		if r, ok := t.callSSA(f, []Value{copyVal(err.v)}, nil).(Iface); ok {
			return t.errorsAs(r, target, d+1)
		}
	}
	return False
}

func wrapIndex(f string) int {
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			continue
		}
		if f[i] == 'w' {
			return k
		}
		k++
	}
	return -1
}

// format implements fmt.Sprintf, keeping symbolic string cells
func (t *Thread) format(f string, args []Iface) Value {
	var out Value = ""
	k := 0
	last := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		out = strConcat(out, f[last:i])
		st := i
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			last = i
			out = strConcat(out, "%!(NOVERB)")
			break
		}
		spec := f[st : i+1]
		last = i + 1
		if f[i] == '%' {
			out = strConcat(out, "%")
			continue
		}
		if k >= len(args) {
			out = strConcat(out, "%!"+string(f[i])+"(MISSING)")
			continue
		}
		out = strConcat(out, t.formatSpec(spec, args[k]))
		k++
	}
	out = strConcat(out, f[last:])
	if k < len(args) {
		out = strConcat(out, "%!(EXTRA)")
	}
	return out
}

func (t *Thread) formatSpec(spec string, a Iface) Value {
	verb := spec[len(spec)-1]
	if verb == 'w' {
		verb = 'v'
	}
	if len(spec) > 2 && a.t != nil {
		if w, signed, ok := intInfo(a.t); ok && w > 0 && a.v.(*Term).IsConst() {
			x := a.v.(*Term)
			if signed {
				return fmt.Sprintf(spec, x.Signed())
			}
			return fmt.Sprintf(spec, x.c)
		}
	}
	return t.formatVal(verb, a)
}

func (t *Thread) formatVal(verb byte, a Iface) Value {
	m := t.m
	if verb == 'T' {
		if a.t == nil {
			return "<nil>"
		}
		return types.TypeString(a.t, func(p *types.Package) string { return p.Name() })
	}
	if a.t == nil {
		if verb == 'v' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'p' {
		return "0xc000010000"
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		if fn := m.ex.prog.methodByName(a.t, "Error"); fn != nil && fn.Signature.Results().Len() == 1 && isString(fn.Signature.Results().At(0).Type()) {
			if p, ok := a.v.(*Value); ok && p == nil {
				return "<nil>"
			}
			return t.callSSA(fn, []Value{copyVal(a.v)}, nil)
		}
		if fn := m.ex.prog.methodByName(a.t, "String"); fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 && isString(fn.Signature.Results().At(0).Type()) {
			if p, ok := a.v.(*Value); ok && p == nil {
				return "<nil>"
			}
			return t.callSSA(fn, []Value{copyVal(a.v)}, nil)
		}
	}
	return t.formatPlain(verb, a.t, a.v, 0)
}

func (t *Thread) formatPlain(verb byte, ty types.Type, v Value, d int) Value {
	if d > 4 {
		return "..."
	}
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		if w, signed, ok := basicWidth(u.Kind()); ok {
			x := v.(*Term)
			if !x.IsConst() {
				if w == 0 {
					if t.m.Branch(x) {
						return "true"
					}
					return "false"
				}
				// symbolic integers are rendered opaquely
				return "<n>"
			}
			if w == 0 {
				return strconv.FormatBool(x.c == 1)
			}
			f := "%" + string(verb)
			if verb == 's' || verb == 'q' {
				f = "%d"
			}
			if signed {
				return fmt.Sprintf(f, x.Signed())
			}
			return fmt.Sprintf(f, x.c)
		}
		if u.Info()&types.IsString != 0 {
			switch verb {
			case 'q':
				if s, ok := v.(string); ok {
					return strconv.Quote(s)
				}
				return strConcat(strConcat("\"", v), "\"")
			case 'x':
				return fmt.Sprintf("%x", t.cstr(v))
			}
			return v
		}
		return fmt.Sprintf("%v", v)
	case *types.Slice:
		s := v.(*Slice)
		if w, _, ok := intInfo(u.Elem()); ok && w == 8 && (verb == 's' || verb == 'x' || verb == 'q') {
			str := t.bytesToString(s)
			if verb == 'x' {
				return fmt.Sprintf("%x", t.cstr(str))
			}
			return str
		}
		var out Value = "["
		n := int(t.m.Concretize(s.len))
		for i := 0; i < n; i++ {
			if i > 0 {
				out = strConcat(out, " ")
			}
			out = strConcat(out, t.formatAny(verb, u.Elem(), t.m.cell(s, i), d))
		}
		return strConcat(out, "]")
	case *types.Array:
		var out Value = "["
		for i, e := range v.(Struct) {
			if i > 0 {
				out = strConcat(out, " ")
			}
			out = strConcat(out, t.formatAny(verb, u.Elem(), e, d))
		}
		return strConcat(out, "]")
	case *types.Struct:
		var out Value = "{"
		for i, e := range v.(Struct) {
			if i > 0 {
				out = strConcat(out, " ")
			}
			out = strConcat(out, t.formatAny(verb, u.Field(i).Type(), e, d))
		}
		return strConcat(out, "}")
	case *types.Map:
		return "map[...]"
	case *types.Pointer:
		return "0xc000010000"
	}
	return "<" + ty.String() + ">"
}

func (t *Thread) formatAny(verb byte, ty types.Type, v Value, d int) Value {
	if i, ok := v.(Iface); ok {
		if _, isI := ty.Underlying().(*types.Interface); isI {
			return t.formatVal(verb, i)
		}
	}
	return t.formatPlain(verb, ty, v, d+1)
}
