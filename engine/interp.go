package main

// The SSA interpreter: executes go/ssa instructions over symbolic values.

import (
	"fmt"
	"go/token"
	"go/types"
	"runtime/debug"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(t *Thread, fn *ssa.Function, args []Value) Value

type deferred struct {
	fn   Value
	args []Value
	in   ssa.Instruction
}

type frame struct {
	t       *Thread
	fi      *fnInfo
	caller  *frame
	regs    []Value
	block   int
	prev    int
	cur     *cInstr
	defers  []deferred
	panic   *targetPanic
	result  Value
	deferOf *frame
}

func (t *Thread) where() string {
	for f := t.fr; f != nil; f = f.caller {
		if (f.fi.isRepo || f.fi.isHarn) && f.cur != nil {
			p := instrPos(f.cur.in, f.fi.fn)
			return fmt.Sprintf("%s:%d (%s)", shortFile(p), p.Line, fnName(f.fi.fn))
		}
	}
	if t.fr != nil {
		return fnName(t.fr.fi.fn)
	}
	return "?"
}

func (t *Thread) stack() []string {
	var out []string
	for f := t.fr; f != nil && len(out) < 30; f = f.caller {
		s := f.fi.name
		if f.cur != nil {
			p := instrPos(f.cur.in, f.fi.fn)
			s += fmt.Sprintf(" %s:%d", shortFile(p), p.Line)
		}
		out = append(out, s)
	}
	return out
}

// repoPos finds the innermost repo (or harness) function and its current
// instruction
func (t *Thread) repoPos() (*ssa.Function, ssa.Instruction) {
	for f := t.fr; f != nil; f = f.caller {
		if (f.fi.isRepo || f.fi.isHarn) && f.cur != nil {
			return f.fi.fn, f.cur.in
		}
	}
	if t.fr != nil && t.fr.cur != nil {
		return t.fr.fi.fn, t.fr.cur.in
	}
	return nil, nil
}

func (t *Thread) get(fr *frame, o *operand) Value {
	switch o.k {
	case okReg:
		return fr.regs[o.i]
	case okConst:
		return o.v
	case okGlobal:
		return t.m.globalPtr(t, o.g)
	}
	return nil
}

func (t *Thread) callSSA(fn *ssa.Function, args []Value, env []Value) Value {
	return t.callFrame(fn, args, env, nil)
}

func (t *Thread) callFrame(fn *ssa.Function, args []Value, env []Value, deferOf *frame) Value {
	m := t.m
	fi := m.ex.prog.info(fn)
	if fi.intr != nil {
		return fi.intr(t, fn, args)
	}
	if fi.pkgInit && t.m.initFn != fn {
		// packages initialise lazily, on the first access to a global
		return nil
	}
	m.initFn = nil
	if fi.noBody {
		if t.lenient > 0 {
			return zeroResult(fn.Signature)
		}
		panic(unsupported("no body: " + fi.name))
	}
	t.depth++
	if t.depth > 600 {
		panic(unsupported("call depth exceeded in " + fi.name))
	}
	fr := &frame{t: t, fi: fi, caller: t.fr, regs: make([]Value, fi.nregs), prev: -1, deferOf: deferOf}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], env)
	t.fr = fr
	if fi.isRepo {
		m.w.noteFn(fi)
	}
	if fi.hasDefer {
		t.runDeferFrame(fr)
	} else {
		t.exec(fr)
	}
	t.fr = fr.caller
	t.depth--
	return fr.result
}

func zeroResult(sig *types.Signature) Value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return zero(sig.Results().At(0).Type())
	}
	return zero(sig.Results())
}

func (t *Thread) runDeferFrame(fr *frame) {
	depth := t.depth
	t.protect(fr, func() { t.exec(fr) })
	t.depth = depth
	if fr.panic == nil {
		return
	}
	t.fr = fr
	t.runDefers(fr)
	if fr.panic != nil {
		panic(*fr.panic)
	}
	if fr.fi.recover >= 0 {
		fr.block = fr.fi.recover
		fr.prev = -1
		t.exec(fr)
	} else {
		fr.result = zeroResult(fr.fi.fn.Signature)
	}
}

// protect runs f and stores a target panic in fr.panic
func (t *Thread) protect(fr *frame, f func()) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if tp, ok := r.(targetPanic); ok {
			fr.panic = &tp
			return
		}
		switch r.(type) {
		case killSignal, endPath, unsupportedErr:
		default:
			if t.m.ex.debug && t.m.w.crashStack == "" {
				t.m.w.crashStack = string(debug.Stack())
			}
		}
		panic(r)
	}()
	f()
}

func (t *Thread) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth := t.depth
		t.protect(fr, func() { t.callDeferred(fr, d) })
		t.depth = depth
		t.fr = fr
	}
}

func (t *Thread) callDeferred(fr *frame, d deferred) {
	c, _ := d.fn.(*Closure)
	if c == nil {
		panic(t.m.rtPanic("invalid memory address or nil pointer dereference"))
	}
	if c.bi != nil {
		if c.bi.Name() == "recover" {
			fr.panic = nil
			return
		}
		t.builtin(fr, c.bi, d.args, nil)
		return
	}
	if c.nat != nil {
		c.nat(t, d.args)
		return
	}
	t.callFrame(c.fn, d.args, c.env, fr)
}

// callValue calls a function value
func (t *Thread) callValue(v Value, args []Value, in ssa.Instruction) Value {
	c, _ := v.(*Closure)
	if c == nil {
		panic(t.m.rtPanic("invalid memory address or nil pointer dereference"))
	}
	if c.nat != nil {
		return c.nat(t, args)
	}
	if c.bi != nil {
		return t.builtin(t.fr, c.bi, args, nil)
	}
	return t.callFrame(c.fn, args, c.env, nil)
}

// resolveCall evaluates callee and arguments of a call instruction
func (t *Thread) resolveCall(fr *frame, ci *cInstr, cc *ssa.CallCommon) (Value, []Value) {
	m := t.m
	v := t.get(fr, &ci.ops[0])
	if cc.IsInvoke() {
		recv := v.(Iface)
		if recv.t == nil {
			panic(m.rtPanic("invalid memory address or nil pointer dereference"))
		}
		if rt, ok := recv.v.(*RType); ok {
			args := make([]Value, 0, len(ci.ops)-1)
			for i := 1; i < len(ci.ops); i++ {
				args = append(args, t.get(fr, &ci.ops[i]))
			}
			name := cc.Method.Name()
			return &Closure{nat: func(t *Thread, args []Value) Value { return t.rtypeMethod(rt, name, args) }}, args
		}
		fn := m.ex.prog.lookupMethod(recv.t, cc.Method)
		if fn == nil {
			panic(unsupported("method not found: " + recv.t.String() + "." + cc.Method.Name()))
		}
		args := make([]Value, 0, len(ci.ops))
		args = append(args, copyVal(recv.v))
		for i := 1; i < len(ci.ops); i++ {
			args = append(args, copyVal(t.get(fr, &ci.ops[i])))
		}
		return &Closure{fn: fn}, args
	}
	args := make([]Value, 0, len(ci.ops)-1)
	for i := 1; i < len(ci.ops); i++ {
		args = append(args, copyVal(t.get(fr, &ci.ops[i])))
	}
	return v, args
}

func (t *Thread) derefErr() targetPanic {
	p := t.m.rtPanic("invalid memory address or nil pointer dereference")
	p.where = t.where()
	return p
}

func (t *Thread) load(fr *frame, p Value, in ssa.Instruction) Value {
	switch a := p.(type) {
	case *Value:
		if a == nil {
			panic(t.derefErr())
		}
		if fr != nil && fr.fi.isRepo {
			t.raceHook(a, false, in, fr)
		}
		return copyVal(*a)
	case *SymPtr:
		if fr != nil && fr.fi.isRepo && len(t.m.threads) > 1 {
			t.symRace(a, false, in, fr)
		}
		return t.m.selectCell(a.arr, a.idx)
	case *SliceData:
		c := t.m.Concretize(a.s.off)
		return copyVal(a.s.arr[c])
	}
	panic(unsupported(fmt.Sprintf("load from %T", p)))
}

func (t *Thread) store(fr *frame, p, v Value, in ssa.Instruction) {
	switch a := p.(type) {
	case *Value:
		if a == nil {
			panic(t.derefErr())
		}
		if fr != nil && fr.fi.isRepo {
			t.raceHook(a, true, in, fr)
		}
		storeVal(a, v)
		return
	case *SymPtr:
		if fr != nil && fr.fi.isRepo && len(t.m.threads) > 1 {
			t.symRace(a, true, in, fr)
		}
		t.m.storeCell(a.arr, a.idx, v)
		return
	case *SliceData:
		c := t.m.Concretize(a.s.off)
		storeVal(&a.s.arr[c], v)
		return
	}
	panic(unsupported(fmt.Sprintf("store to %T", p)))
}

// raceHook records a memory access; racy instructions found by an earlier
// round are scheduling points
func (t *Thread) raceHook(a *Value, write bool, in ssa.Instruction, fr *frame) {
	m := t.m
	if len(m.threads) < 2 || m.noSched > 0 {
		return
	}
	if m.ex.racy != nil && m.ex.racy[in] {
		k := cellKey{a}
		o, ok := m.sync[k].(*Obj)
		if !ok {
			o = m.newObj("mem")
			m.sync[k] = o
		}
		t.yield(&pend{name: "mem", objs: []*Obj{o}, write: write})
	}
	if s, ok := (*a).(Struct); ok {
		t.raceStruct(s, write, in, fr)
		return
	}
	m.access(t, a, write, in, fr.fi.fn)
}

func (t *Thread) raceStruct(s Struct, write bool, in ssa.Instruction, fr *frame) {
	for i := range s {
		if x, ok := s[i].(Struct); ok {
			t.raceStruct(x, write, in, fr)
		} else {
			t.m.access(t, &s[i], write, in, fr.fi.fn)
		}
	}
}

func (t *Thread) symRace(a *SymPtr, write bool, in ssa.Instruction, fr *frame) {
	if len(a.arr) > 0 {
		// the whole array is treated as one object for symbolic indices
		t.m.access(t, &a.arr[0], write, in, fr.fi.fn)
	}
}

// selectCell reads arr[idx] for a symbolic idx known to be in range
func (m *Machine) selectCell(arr []Value, idx *Term) Value {
	if idx.IsConst() {
		if idx.c >= uint64(len(arr)) {
			panic(unsupported("select out of backing array"))
		}
		if c, ok := arr[idx.c].(*Term); ok {
			return m.simp(c)
		}
		return copyVal(arr[idx.c])
	}
	n := len(arr)
	if mx := maxU(idx); mx < uint64(n-1) {
		n = int(mx) + 1
	}
	if n == 0 {
		panic(unsupported("select of empty array"))
	}
	_, ok := arr[0].(*Term)
	if !ok {
		return copyVal(arr[m.Concretize(idx)])
	}
	// idx = e + k: select among the cells from k on by e
	off := 0
	if idx.op == OpAdd && idx.b.IsConst() && idx.b.c < uint64(len(arr)) {
		if mx := maxU(idx.a); mx <= mask(idx.w)-idx.b.c {
			off = int(idx.b.c)
			idx = idx.a
			n -= off
		}
	}
	for idx.op == OpZExt {
		idx = idx.a
	}
	if mx := maxU(idx); mx < uint64(n) {
		n = int(mx) + 1
	}
	cells := make([]*Term, n)
	for i := range cells {
		cells[i] = arr[off+i].(*Term)
	}
	if n > 4 {
		return m.mux(cells, idx)
	}
	r := cells[n-1]
	for i := n - 2; i >= 0; i-- {
		r = m.tb.Ite(m.tb.Eq(idx, Const(idx.w, uint64(i))), cells[i], r)
	}
	return r
}

// simp drops the alternatives of t the path has already excluded
func (m *Machine) simp(t *Term) *Term {
	for t.op == OpIte {
		v, ok := m.vis[t.a]
		if !ok {
			break
		}
		if v {
			t = t.b
		} else {
			t = t.d
		}
	}
	return t
}

// mux selects cells[idx] by the bits of idx (idx is known to be in range)
func (m *Machine) mux(cells []*Term, idx *Term) *Term {
	if len(cells) == 1 {
		return cells[0]
	}
	k := 0
	for 1<<uint(k+1) < len(cells) {
		k++
	}
	h := 1 << uint(k)
	hi := m.mux(cells[h:], idx)
	lo := m.mux(cells[:h], idx)
	if hi == lo {
		return hi
	}
	bit := m.tb.Not(m.tb.Eq(m.tb.Bin(OpBAnd, idx, Const(idx.w, uint64(h))), Const(idx.w, 0)))
	return m.tb.Ite(bit, hi, lo)
}

func (m *Machine) storeCell(arr []Value, idx *Term, v Value) {
	if idx.IsConst() {
		storeVal(&arr[idx.c], v)
		return
	}
	x, ok := v.(*Term)
	if !ok {
		storeVal(&arr[m.Concretize(idx)], v)
		return
	}
	n := len(arr)
	if mx := maxU(idx); mx < uint64(n-1) {
		n = int(mx) + 1
	}
	for i := 0; i < n; i++ {
		arr[i] = m.tb.Ite(m.tb.Eq(idx, Const(idx.w, uint64(i))), x, arr[i].(*Term))
	}
}

func (t *Thread) boundsCheck(idx, n *Term) {
	m := t.m
	if !m.Branch(m.tb.Bin(OpULt, idx, n)) {
		is, ns := "?", "?"
		if idx.IsConst() {
			is = fmt.Sprint(idx.Signed())
		}
		if n.IsConst() {
			ns = fmt.Sprint(n.Signed())
		}
		p := m.rtPanic("index out of range [" + is + "] with length " + ns)
		p.where = t.where()
		panic(p)
	}
}

// elemPtr returns a pointer to arr[idx]
func (m *Machine) elemPtr(arr []Value, idx *Term) Value {
	if idx.IsConst() {
		if idx.c >= uint64(len(arr)) {
			panic(unsupported("element outside backing array"))
		}
		return &arr[idx.c]
	}
	if len(arr) > 0 {
		if _, ok := arr[0].(*Term); ok {
			return &SymPtr{arr: arr, idx: idx}
		}
	}
	return &arr[m.Concretize(idx)]
}

func (t *Thread) idx64(v Value, ty types.Type) *Term {
	x := v.(*Term)
	_, signed, _ := intInfo(ty)
	return t.m.tb.Resize(x, 64, signed)
}

func (t *Thread) exec(fr *frame) {
	m := t.m
	for {
		b := &fr.fi.blocks[fr.block]
		if len(b.phis) > 0 {
			k := -1
			for i, p := range b.preds {
				if p.Index == fr.prev {
					k = i
					break
				}
			}
			if len(b.phis) == 1 {
				ph := &b.phis[0]
				fr.regs[ph.dst] = t.get(fr, &ph.ops[k])
			} else {
				vals := make([]Value, len(b.phis))
				for i := range b.phis {
					vals[i] = t.get(fr, &b.phis[i].ops[k])
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = vals[i]
				}
			}
		}
		jumped := false
		for ii := range b.ins {
			ci := &b.ins[ii]
			fr.cur = ci
			m.steps++
			if m.steps > m.ex.opts.MaxSteps {
				m.overBudget(t)
			}
			switch in := ci.in.(type) {
			case *ssa.Alloc:
				v := zero(in.Type().Underlying().(*types.Pointer).Elem())
				p := new(Value)
				*p = v
				fr.regs[ci.dst] = p
			case *ssa.UnOp:
				fr.regs[ci.dst] = t.unop(fr, ci, in)
			case *ssa.BinOp:
				fr.regs[ci.dst] = t.binop(in.Op, in.X.Type(), t.get(fr, &ci.ops[0]), in.Y.Type(), t.get(fr, &ci.ops[1]))
			case *ssa.Call:
				fn, args := t.resolveCall(fr, ci, &in.Call)
				c, _ := fn.(*Closure)
				if c == nil {
					panic(t.derefErr())
				}
				var r Value
				switch {
				case c.bi != nil:
					r = t.builtin(fr, c.bi, args, in)
				case c.nat != nil:
					r = c.nat(t, args)
				default:
					r = t.callFrame(c.fn, args, c.env, nil)
				}
				fr.regs[ci.dst] = r
			case *ssa.ChangeInterface:
				fr.regs[ci.dst] = t.get(fr, &ci.ops[0])
			case *ssa.ChangeType:
				fr.regs[ci.dst] = t.get(fr, &ci.ops[0])
			case *ssa.Convert:
				fr.regs[ci.dst] = t.convert(in.X.Type(), in.Type(), t.get(fr, &ci.ops[0]))
			case *ssa.MultiConvert:
				fr.regs[ci.dst] = t.convert(in.X.Type(), in.Type(), t.get(fr, &ci.ops[0]))
			case *ssa.SliceToArrayPointer:
				fr.regs[ci.dst] = t.sliceToArrayPtr(in, t.get(fr, &ci.ops[0]).(*Slice))
			case *ssa.MakeInterface:
				x := t.get(fr, &ci.ops[0])
				fr.regs[ci.dst] = Iface{t: in.X.Type(), v: copyVal(x)}
			case *ssa.MakeClosure:
				c := t.get(fr, &ci.ops[0]).(*Closure)
				env := make([]Value, len(ci.ops)-1)
				for i := range env {
					env[i] = t.get(fr, &ci.ops[i+1])
				}
				fr.regs[ci.dst] = &Closure{fn: c.fn, env: env}
			case *ssa.MakeChan:
				n := int64(m.Concretize(t.idx64(t.get(fr, &ci.ops[0]), in.Size.Type())))
				if n < 0 {
					panic(m.plainRtPanic("makechan: size out of range"))
				}
				fr.regs[ci.dst] = m.mkChan(int(n), in.Type().Underlying().(*types.Chan).Elem())
			case *ssa.MakeMap:
				mt := in.Type().Underlying().(*types.Map)
				fr.regs[ci.dst] = &Map{kt: mt.Key(), vt: mt.Elem()}
			case *ssa.MakeSlice:
				fr.regs[ci.dst] = t.makeSlice(in.Type().Underlying().(*types.Slice).Elem(),
					t.idx64(t.get(fr, &ci.ops[0]), in.Len.Type()), t.idx64(t.get(fr, &ci.ops[1]), in.Cap.Type()))
			case *ssa.FieldAddr:
				fr.regs[ci.dst] = t.fieldAddr(t.get(fr, &ci.ops[0]), in.Field)
			case *ssa.Field:
				fr.regs[ci.dst] = copyVal(t.get(fr, &ci.ops[0]).(Struct)[in.Field])
			case *ssa.IndexAddr:
				fr.regs[ci.dst] = t.indexAddr(t.get(fr, &ci.ops[0]), t.idx64(t.get(fr, &ci.ops[1]), in.Index.Type()))
			case *ssa.Index:
				fr.regs[ci.dst] = t.index(t.get(fr, &ci.ops[0]), t.idx64(t.get(fr, &ci.ops[1]), in.Index.Type()))
			case *ssa.Lookup:
				fr.regs[ci.dst] = t.lookup(fr, in, t.get(fr, &ci.ops[0]), t.get(fr, &ci.ops[1]))
			case *ssa.MapUpdate:
				mp, _ := t.get(fr, &ci.ops[0]).(*Map)
				if mp == nil {
					panic(m.plainRtPanic("assignment to entry in nil map"))
				}
				t.mapRace(mp, true, in, fr)
				m.mapSet(mp, t.get(fr, &ci.ops[1]), t.get(fr, &ci.ops[2]))
			case *ssa.Slice:
				var lo, hi, mx *Term
				if in.Low != nil {
					lo = t.idx64(t.get(fr, &ci.ops[1]), in.Low.Type())
				}
				if in.High != nil {
					hi = t.idx64(t.get(fr, &ci.ops[2]), in.High.Type())
				}
				if in.Max != nil {
					mx = t.idx64(t.get(fr, &ci.ops[3]), in.Max.Type())
				}
				fr.regs[ci.dst] = t.slice(t.get(fr, &ci.ops[0]), lo, hi, mx)
			case *ssa.Range:
				fr.regs[ci.dst] = t.rangeIter(fr, in, t.get(fr, &ci.ops[0]))
			case *ssa.Next:
				fr.regs[ci.dst] = t.next(fr, in, t.get(fr, &ci.ops[0]))
			case *ssa.TypeAssert:
				fr.regs[ci.dst] = t.typeAssert(in, t.get(fr, &ci.ops[0]).(Iface))
			case *ssa.Extract:
				fr.regs[ci.dst] = t.get(fr, &ci.ops[0]).(Tuple)[in.Index]
			case *ssa.Select:
				fr.regs[ci.dst] = t.doSelect(fr, ci, in)
			case *ssa.Send:
				t.send(t.get(fr, &ci.ops[0]), t.get(fr, &ci.ops[1]))
			case *ssa.Store:
				t.store(fr, t.get(fr, &ci.ops[0]), t.get(fr, &ci.ops[1]), in)
			case *ssa.Go:
				fn, args := t.resolveCall(fr, ci, &in.Call)
				t.spawn(fn, args, in)
			case *ssa.Defer:
				fn, args := t.resolveCall(fr, ci, &in.Call)
				fr.defers = append(fr.defers, deferred{fn, args, in})
			case *ssa.RunDefers:
				t.runDefers(fr)
				if fr.panic != nil {
					panic(*fr.panic)
				}
			case *ssa.Panic:
				v := t.get(fr, &ci.ops[0]).(Iface)
				panic(targetPanic{v: v, where: t.where()})
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
					fr.result = nil
				case 1:
					fr.result = copyVal(t.get(fr, &ci.ops[0]))
				default:
					tp := make(Tuple, len(ci.ops))
					for i := range tp {
						tp[i] = copyVal(t.get(fr, &ci.ops[i]))
					}
					fr.result = tp
				}
				return
			case *ssa.Jump:
				fr.prev = fr.block
				fr.block = b.succs[0]
				jumped = true
			case *ssa.If:
				c := t.get(fr, &ci.ops[0]).(*Term)
				fr.prev = fr.block
				if m.Branch(c) {
					fr.block = b.succs[0]
				} else {
					fr.block = b.succs[1]
				}
				jumped = true
			default:
				panic(unsupported(fmt.Sprintf("instruction %T", in)))
			}
			if jumped {
				break
			}
		}
		if !jumped {
			panic(unsupported("block without terminator in " + fr.fi.name))
		}
	}
}

func (t *Thread) spawn(fn Value, args []Value, in ssa.Instruction) {
	m := t.m
	name := "goroutine"
	if c, _ := fn.(*Closure); c != nil && c.fn != nil {
		name = c.fn.RelString(nil)
	}
	n := m.newThread(t, name)
	n.pend = &pend{name: "start", local: true}
	n.goRun(func() {
		n.pend = nil
		n.callValue(fn, args, in)
	})
}

func (t *Thread) unop(fr *frame, ci *cInstr, in *ssa.UnOp) Value {
	m := t.m
	x := t.get(fr, &ci.ops[0])
	switch in.Op {
	case token.MUL:
		if fr.fi.isRepo && m.ex.racy == nil && len(m.threads) < 2 {
			if a, ok := x.(*Value); ok && a != nil {
				return copyVal(*a)
			}
		}
		return t.load(fr, x, in)
	case token.ARROW:
		v, ok := t.recv(x)
		if in.CommaOk {
			return Tuple{v, CBool(ok)}
		}
		return v
	case token.NOT:
		return m.tb.Not(x.(*Term))
	case token.SUB:
		switch a := x.(type) {
		case *Term:
			return m.tb.Neg(a)
		case float64:
			return -a
		case float32:
			return -a
		}
	case token.XOR:
		return m.tb.BNot(x.(*Term))
	}
	panic(unsupported("unop " + in.Op.String()))
}

func (t *Thread) fieldAddr(p Value, i int) Value {
	switch a := p.(type) {
	case *Value:
		if a == nil {
			panic(t.derefErr())
		}
		s, ok := (*a).(Struct)
		if !ok {
			if (*a) == nil {
				panic(unsupported("field of nil struct"))
			}
			panic(unsupported(fmt.Sprintf("field address of %T", *a)))
		}
		return &s[i]
	}
	panic(unsupported(fmt.Sprintf("field address through %T", p)))
}

func (t *Thread) indexAddr(x Value, idx *Term) Value {
	m := t.m
	switch a := x.(type) {
	case *Slice:
		t.boundsCheck(idx, a.len)
		return m.elemPtr(a.arr, m.tb.Bin(OpAdd, a.off, idx))
	case *Value:
		if a == nil {
			panic(t.derefErr())
		}
		s := (*a).(Struct)
		t.boundsCheck(idx, CInt(int64(len(s))))
		return m.elemPtr(s, idx)
	}
	panic(unsupported(fmt.Sprintf("index address of %T", x)))
}

func (t *Thread) index(x Value, idx *Term) Value {
	m := t.m
	switch a := x.(type) {
	case Struct:
		t.boundsCheck(idx, CInt(int64(len(a))))
		return m.selectCell(a, idx)
	case string, *SymStr:
		return t.strIndex(a, idx)
	}
	panic(unsupported(fmt.Sprintf("index of %T", x)))
}

func (t *Thread) strIndex(s Value, idx *Term) Value {
	t.boundsCheck(idx, CInt(int64(strLen(s))))
	if idx.IsConst() {
		return strCell(s, int(idx.c))
	}
	cells := strCells(s)
	arr := make([]Value, len(cells))
	for i, c := range cells {
		arr[i] = c
	}
	return t.m.selectCell(arr, idx)
}

func (t *Thread) mapRace(mp *Map, write bool, in ssa.Instruction, fr *frame) {
	if !fr.fi.isRepo || mp == nil || len(t.m.threads) < 2 || t.m.noSched > 0 {
		return
	}
	m := t.m
	if m.ex.racy != nil && m.ex.racy[in] {
		type rk struct{ p *Map }
		k := rk{mp}
		o, ok := m.sync[k].(*Obj)
		if !ok {
			o = m.newObj("map")
			m.sync[k] = o
		}
		t.yield(&pend{name: "map", objs: []*Obj{o}, write: write})
	}
	m.access(t, mp, write, in, fr.fi.fn)
}

func (t *Thread) lookup(fr *frame, in *ssa.Lookup, x, k Value) Value {
	m := t.m
	switch a := x.(type) {
	case *Map:
		t.mapRace(a, false, in, fr)
		e := m.mapFind(a, k)
		mt := in.X.Type().Underlying().(*types.Map)
		var v Value
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = zero(mt.Elem())
		}
		if in.CommaOk {
			return Tuple{v, CBool(e != nil)}
		}
		return v
	case string, *SymStr:
		return t.strIndex(a, t.idx64(k, in.Index.Type()))
	}
	panic(unsupported(fmt.Sprintf("lookup in %T", x)))
}

func (t *Thread) sliceBounds(lo, hi, mx, capT *Term) {
	m := t.m
	c := m.tb.And(m.tb.Bin(OpULe, lo, hi), m.tb.And(m.tb.Bin(OpULe, hi, mx), m.tb.Bin(OpULe, mx, capT)))
	if !m.Branch(c) {
		s := func(x *Term) string {
			if x.IsConst() {
				return fmt.Sprint(x.Signed())
			}
			return "?"
		}
		p := m.rtPanic("slice bounds out of range [" + s(lo) + ":" + s(hi) + "] with capacity " + s(capT))
		p.where = t.where()
		panic(p)
	}
}

func (t *Thread) slice(x Value, lo, hi, mx *Term) Value {
	m := t.m
	if lo == nil {
		lo = CInt(0)
	}
	switch a := x.(type) {
	case string, *SymStr:
		n := CInt(int64(strLen(a)))
		if hi == nil {
			hi = n
		}
		t.sliceBounds(lo, hi, hi, n)
		l, h := m.Concretize(lo), m.Concretize(hi)
		return strSlice(a, int(l), int(h))
	case *Slice:
		if hi == nil {
			hi = a.len
		}
		if mx == nil {
			mx = a.cap
		}
		t.sliceBounds(lo, hi, mx, a.cap)
		return &Slice{arr: a.arr, off: m.tb.Bin(OpAdd, a.off, lo), len: m.tb.Bin(OpSub, hi, lo), cap: m.tb.Bin(OpSub, mx, lo)}
	case *Value:
		if a == nil {
			panic(t.derefErr())
		}
		s := (*a).(Struct)
		n := CInt(int64(len(s)))
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		t.sliceBounds(lo, hi, mx, n)
		arr := []Value(s)
		if arr == nil {
			arr = []Value{}
		}
		return &Slice{arr: arr, off: lo, len: m.tb.Bin(OpSub, hi, lo), cap: m.tb.Bin(OpSub, mx, lo)}
	}
	panic(unsupported(fmt.Sprintf("slice of %T", x)))
}

func (t *Thread) makeSlice(et types.Type, n, c *Term) Value {
	m := t.m
	bad := m.tb.Or(m.tb.Bin(OpSLt, n, CInt(0)), m.tb.Bin(OpSLt, c, n))
	if m.Branch(bad) {
		panic(m.rtPanic("makeslice: len out of range"))
	}
	if m.Branch(m.tb.Bin(OpSLt, CInt(1<<20), c)) {
		panic(unsupported("allocation larger than 1 MiB elements"))
	}
	size := uint64(0)
	if c.IsConst() {
		size = c.c
	} else {
		// smallest power-of-two bound that always suffices
		for size = 8; size < 1<<20; size *= 2 {
			if maxU(c) <= size {
				break
			}
			if m.decides(m.tb.Bin(OpULe, c, CInt(int64(size)))) {
				break
			}
		}
		if size > 4096 {
			size = m.Concretize(c)
		}
	}
	arr := make([]Value, size)
	if size > 0 {
		z := zero(et)
		if _, isS := z.(Struct); isS {
			for i := range arr {
				arr[i] = zero(et)
			}
		} else {
			for i := range arr {
				arr[i] = z
			}
		}
	}
	return &Slice{arr: arr, off: CInt(0), len: n, cap: c}
}

// decides reports whether c holds on every value of the path. During replay
// the recorded answer is used.
func (m *Machine) decides(c *Term) bool {
	if c.IsConst() {
		return c.True()
	}
	if m.replaying() {
		p := m.prefix[m.pos]
		m.pos++
		m.cur = p
		return p.val == 1
	}
	ok := false
	if m.model == nil || m.model.Eval(c) != 0 {
		r, _ := m.query(m.tb.Not(c))
		ok = r == RUnsat
	}
	v := int32(0)
	if ok {
		v = 1
	}
	m.step(v, nil)
	return ok
}

func (t *Thread) sliceToArrayPtr(in *ssa.SliceToArrayPointer, s *Slice) Value {
	m := t.m
	at := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	n := at.Len()
	if !m.Branch(m.tb.Bin(OpSLe, CInt(n), s.len)) {
		panic(m.rtPanic("cannot convert slice to array pointer: length too short"))
	}
	if s.arr == nil {
		return (*Value)(nil)
	}
	off := m.Concretize(s.off)
	var v Value = Struct(s.arr[off : off+uint64(n) : off+uint64(n)])
	return &v
}

func (t *Thread) rangeIter(fr *frame, in *ssa.Range, x Value) Value {
	switch a := x.(type) {
	case *Map:
		it := &mapIter{}
		if a != nil {
			t.mapRace(a, false, in, fr)
			it.entries = append(it.entries, a.entries...)
		}
		return it
	case string, *SymStr:
		return &strIter{s: a}
	}
	panic(unsupported(fmt.Sprintf("range over %T", x)))
}

func (t *Thread) next(fr *frame, in *ssa.Next, x Value) Value {
	m := t.m
	switch it := x.(type) {
	case *mapIter:
		// Iteration order: insertion order. Entries deleted meanwhile are
		// skipped, as the language requires.
		for it.i < len(it.entries) {
			e := it.entries[it.i]
			it.i++
			if e.deleted {
				continue
			}
			return Tuple{True, copyVal(e.k), copyVal(e.v)}
		}
		tt := in.Type().(*types.Tuple)
		z := func(i int) Value {
			ty := tt.At(i).Type()
			if b, ok := ty.(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return zero(ty)
		}
		return Tuple{False, z(1), z(2)}
	case *strIter:
		n := strLen(it.s)
		if it.i >= n {
			return Tuple{False, CInt(0), Const(32, 0)}
		}
		i := it.i
		r, w := t.decodeRune(it.s, i)
		it.i += w
		_ = m
		return Tuple{True, CInt(int64(i)), r}
	}
	panic(unsupported(fmt.Sprintf("next on %T", x)))
}

// decodeRune decodes one rune, using the real unicode/utf8 code when symbolic
func (t *Thread) decodeRune(s Value, i int) (*Term, int) {
	c := strCell(s, i)
	m := t.m
	if m.Branch(m.tb.Bin(OpULt, c, Const(8, 0x80))) {
		return m.tb.Resize(c, 32, false), 1
	}
	fn := m.ex.prog.findFunc("unicode/utf8", "DecodeRuneInString")
	if fn == nil {
		panic(unsupported("unicode/utf8 not loaded"))
	}
	end := i + 4
	if end > strLen(s) {
		end = strLen(s)
	}
	r := t.callSSA(fn, []Value{strSlice(s, i, end)}, nil).(Tuple)
	return r[0].(*Term), int(m.Concretize(r[1].(*Term)))
}

func (t *Thread) typeAssert(in *ssa.TypeAssert, x Iface) Value {
	m := t.m
	ok := false
	var v Value
	if x.t != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			if _, isRT := x.v.(*RType); isRT {
				ok = true
			} else {
				ok = m.ex.prog.implements(x.t, it)
			}
			if ok {
				v = x
			}
		} else if types.Identical(x.t, in.AssertedType) {
			ok = true
			v = copyVal(x.v)
		}
	}
	if in.CommaOk {
		if !ok {
			v = zero(in.AssertedType)
		}
		return Tuple{v, CBool(ok)}
	}
	if !ok {
		d := "nil"
		if x.t != nil {
			d = x.t.String()
		}
		p := m.rtPanic("interface conversion: interface is " + d + ", not " + in.AssertedType.String())
		p.where = t.where()
		panic(p)
	}
	return v
}

func (t *Thread) doSelect(fr *frame, ci *cInstr, in *ssa.Select) Value {
	cases := make([]selCase, len(in.States))
	k := 0
	for i, st := range in.States {
		c, _ := t.get(fr, &ci.ops[k]).(*Chan)
		k++
		cases[i].c = c
		if st.Dir == types.SendOnly {
			cases[i].send = true
			cases[i].v = copyVal(t.get(fr, &ci.ops[k]))
		}
		k++
	}
	idx, v, ok := t.selectOp(cases, in.Blocking)
	res := Tuple{CInt(int64(idx)), CBool(ok)}
	for i, st := range in.States {
		if st.Dir == types.RecvOnly {
			if i == idx {
				res = append(res, v)
			} else {
				res = append(res, zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	return res
}
