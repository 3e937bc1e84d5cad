package main

// Threads, scheduling (DPOR with sleep sets), channels, locks, timers, races.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obj is an object accessed by visible operations
type Obj struct {
	name      string
	lastWrite int // event index or -1
	reads     map[int]int
	dvc       vclock // join of dependent events' clocks (writes)
	rvc       vclock // join of reads
}

type vclock []int32

func (a vclock) get(i int) int32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}

func (a *vclock) set(i int, v int32) {
	for len(*a) <= i {
		*a = append(*a, 0)
	}
	(*a)[i] = v
}

func (a *vclock) join(b vclock) {
	for i, v := range b {
		if v > a.get(i) {
			a.set(i, v)
		}
	}
}

func (a vclock) copy() vclock { return append(vclock(nil), a...) }

type pend struct {
	name    string
	objs    []*Obj
	write   bool
	enabled func() bool
	quiesce bool
	timer   *timerState
	local   bool
}

type Thread struct {
	id      int
	m       *Machine
	fr      *frame
	resume  chan bool
	pend    *pend
	done    bool
	off     int // >0: put off by that deviation from the fixed schedule
	started bool
	lenient int
	name    string
	daemon  bool

	dvc       vclock // dependency clock (DPOR)
	svc       vclock // synchronisation clock (races)
	ev        int32  // own event counter
	sev       int32
	depth     int
	callInstr ssa.Instruction
}

type event struct {
	tid  int
	cnt  int32
	rec  *schedRec
	name string
	in   ssa.Instruction
	fr   *frame
	fn   *ssa.Function
}

func (e event) pos() string {
	if e.in == nil || e.fn == nil {
		return ""
	}
	p := e.fn.Prog.Fset.Position(e.in.Pos())
	return fmt.Sprintf("%s:%d (%s)", shortFile(p), p.Line, e.fn.Name())
}

type schedRec struct {
	parent  *PNode
	sn      *SchedNode
	enabled uint64
	sleep   uint64
	chosen  int
	evIdx   int
}

func (m *Machine) newObj(name string) *Obj {
	return &Obj{name: name, lastWrite: -1}
}

func (m *Machine) newThread(parent *Thread, name string) *Thread {
	t := &Thread{id: len(m.threads), m: m, resume: make(chan bool, 1), name: name}
	if t.id >= 60 {
		panic(unsupported("too many goroutines"))
	}
	if parent != nil {
		t.dvc = parent.dvc.copy()
		t.svc = parent.svc.copy()
		parent.sev++
		parent.svc.set(parent.id, parent.sev)
	}
	t.svc.set(t.id, 1)
	t.sev = 1
	m.threads = append(m.threads, t)
	return t
}

// goRun starts the engine goroutine backing an interpreted goroutine
func (t *Thread) goRun(f func()) {
	m := t.m
	m.wg.Add(1)
	go func() {
		defer m.wg.Done()
		if !<-t.resume {
			t.done = true
			return
		}
		t.started = true
		t.guard(f)
	}()
}

// guard runs f and turns its ending into a scheduling event
func (t *Thread) guard(f func()) {
	m := t.m
	killed := false
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case killSignal:
				killed = true
			case endPath:
				m.end(x.out, x.msg)
				killed = true
			case unsupportedErr:
				if m.ex.debug {
					fmt.Println("UNSUPPORTED", x.msg, "\n  ", strings.Join(t.stack(), "\n   "))
				}
				m.end(outUnsupported, x.msg+" @ "+t.where())
				killed = true
			case targetPanic:
				m.crash(t, x)
				killed = true
			default:
				if m.ex.debug {
					panic(r)
				}
				m.end(outUnsupported, fmt.Sprintf("engine error: %v @ %s", r, t.where()))
				killed = true
			}
		}()
		f()
	}()
	t.done = true
	t.pend = nil
	if killed {
		return
	}
	if t.id == 0 {
		m.mainOk = true
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case killSignal:
				case endPath:
					m.end(x.out, x.msg)
				case unsupportedErr:
					m.end(outUnsupported, x.msg)
				default:
					panic(r)
				}
			}
		}()
		n := m.pick(t)
		if n != nil {
			n.resume <- true
		}
	}()
}

// crash handles an uncaught panic of an interpreted goroutine
func (m *Machine) crash(t *Thread, p targetPanic) {
	if m.ended {
		return
	}
	if !m.haveModel() {
		m.end(outPruned, "infeasible")
		return
	}
	msg := m.panicText(t, p.v)
	m.violation(t, "uncaught panic", "panic", msg+" @ "+p.where, m.model)
	m.end(outFatal, "panic: "+msg)
}

// end finishes the path
func (m *Machine) end(o outcome, msg string) {
	if m.ended {
		return
	}
	m.ended = true
	m.out = o
	m.outMsg = msg
	m.finalRaces()
	close(m.doneCh)
}

// finalRaces adds backtrack points for operations that were still pending when
// the path ended
func (m *Machine) finalRaces() {
	if m.out == outRedundant {
		return
	}
	for _, t := range m.threads {
		if t.done || t.pend == nil || t.pend.quiesce || t.pend.timer != nil {
			continue
		}
		m.raceCheck(t, t.pend)
	}
}

func (t *Thread) enabledNow() bool {
	if t.done || t.pend == nil || t.pend.quiesce || t.pend.timer != nil {
		return false
	}
	return t.pend.enabled == nil || t.pend.enabled()
}

func dependent(a, b *pend) bool {
	if a == nil || b == nil || (!a.write && !b.write) {
		return false
	}
	for _, x := range a.objs {
		for _, y := range b.objs {
			if x == y {
				return true
			}
		}
	}
	return false
}

// pick selects the next thread to run; it is called by the thread that just
// parked at a visible operation (or finished). It returns nil when the path
// ended.
func (m *Machine) pick(self *Thread) *Thread {
	if m.ended {
		panic(killSignal{})
	}
	// local steps commute with everything: run them first, without a decision
	for _, t := range m.threads {
		if t.pend != nil && t.pend.local && t.enabledNow() {
			return t
		}
	}
	var en uint64
	n := 0
	var only *Thread
	for _, t := range m.threads {
		if t.enabledNow() {
			en |= 1 << uint(t.id)
			n++
			only = t
		}
	}
	if n == 0 {
		return m.pickIdle(self)
	}
	if n == 1 && en&m.sleep == 0 {
		m.execOp(only, nil)
		return only
	}
	if m.calm || m.ex.opts.Delays > 0 {
		// a fixed schedule: the running thread as long as it can, else the first one
		// that can; a deviation puts the thread off until no other one can run
		var av []*Thread
		for _, o := range m.threads {
			if en&^m.sleep&(1<<uint(o.id)) == 0 {
				continue
			}
			i := len(av)
			if o == self {
				i = 0
			} else {
				for i > 0 && av[i-1] != self && av[i-1].off > o.off {
					i--
				}
			}
			av = append(av, nil)
			copy(av[i+1:], av[i:])
			av[i] = o
		}
		if len(av) == 0 {
			panic(endPath{outRedundant, "sleep"})
		}
		if !m.calm {
			for m.delays < m.ex.opts.Delays+m.ex.tier && len(av) > 1 && m.Choose(2) == 1 {
				m.delays++
				av[0].off = m.delays
				av = av[1:]
			}
		}
		t := av[0]
		m.execOp(t, nil)
		return t
	}
	// scheduling decision
	var choice int
	rec := &schedRec{parent: m.cur, enabled: en, sleep: m.sleep}
	if m.replaying() {
		p := m.prefix[m.pos]
		m.pos++
		m.cur = p
		choice = int(p.val)
		rec.sn = p.sn
		if rec.sn == nil {
			panic(endPath{outUnsupported, "replay divergence (schedule)"})
		}
		// threads explored before this choice go to sleep
		m.ex.mu.Lock()
		for _, e := range rec.sn.explored {
			if int(e) == choice {
				break
			}
			m.sleep |= 1 << uint(e)
		}
		m.ex.mu.Unlock()
		if en&(1<<uint(choice)) == 0 {
			panic(endPath{outUnsupported, "replay divergence (enabled set)"})
		}
	} else {
		av := en &^ m.sleep
		if av == 0 {
			panic(endPath{outRedundant, "sleep"})
		}
		choice = -1
		if self != nil && !self.done && av&(1<<uint(self.id)) != 0 {
			choice = self.id
		} else {
			for _, t := range m.threads {
				if av&(1<<uint(t.id)) != 0 {
					choice = t.id
					break
				}
			}
		}
		rec.sn = &SchedNode{explored: []int32{int32(choice)}}
		m.step(int32(choice), rec.sn)
		if m.ex.opts.NoDPOR {
			// explore every other choice
			for _, t := range m.threads {
				b := uint64(1) << uint(t.id)
				if t.id != choice && av&b != 0 {
					m.addBacktrack(rec, t.id)
				}
			}
		}
	}
	rec.chosen = choice
	m.schedN++
	t := m.threads[choice]
	m.execOp(t, rec)
	return t
}

func (m *Machine) pickIdle(self *Thread) *Thread {
	// only quiescing threads or timers may proceed
	for _, t := range m.threads {
		if !t.done && t.pend != nil && t.pend.quiesce {
			m.joinAll(t)
			return t
		}
	}
	main := m.threads[0]
	if main.done {
		m.ex.noteDone()
		panic(endPath{outDone, ""})
	}
	if tm := m.nextTimer(); tm != nil {
		return m.fireTimer(tm)
	}
	// deadlock
	msg := ""
	for _, t := range m.threads {
		if !t.done && !t.daemon {
			op := "?"
			if t.pend != nil {
				op = t.pend.name
			}
			msg += fmt.Sprintf("[T%d %s blocked at %s %s] ", t.id, t.name, op, t.where())
		}
	}
	m.mustModel()
	m.violation(main, "deadlock", "deadlock", msg, m.model)
	panic(endPath{outFatal, "deadlock: " + msg})
}

func (m *Machine) joinAll(t *Thread) {
	for _, o := range m.threads {
		if o != t {
			t.dvc.join(o.dvc)
			t.svc.join(o.svc)
		}
	}
}

// raceCheck inserts DPOR backtrack points for p about to execute by t
func (m *Machine) raceCheck(t *Thread, p *pend) {
	for _, o := range p.objs {
		if p.write {
			for _, r := range sortedInts(o.reads) {
				m.raceWith(t, o.reads[r])
			}
		}
		if o.lastWrite >= 0 {
			m.raceWith(t, o.lastWrite)
		}
	}
}

func sortedInts(mm map[int]int) []int {
	if len(mm) == 0 {
		return nil
	}
	var ks []int
	for i := 0; i < 64; i++ {
		if _, ok := mm[i]; ok {
			ks = append(ks, i)
		}
	}
	return ks
}

func (m *Machine) raceWith(t *Thread, ei int) {
	e := &m.events[ei]
	if e.tid == t.id || t.dvc.get(e.tid) >= e.cnt {
		return
	}
	if e.rec == nil || m.ex.opts.NoDPOR {
		return
	}
	rec := e.rec
	b := uint64(1) << uint(t.id)
	if rec.enabled&b != 0 {
		m.addBacktrack(rec, t.id)
		return
	}
	// find an enabled thread that happens-before t's operation after e
	for j := ei + 1; j < len(m.events); j++ {
		q := &m.events[j]
		if rec.enabled&(1<<uint(q.tid)) != 0 && q.tid != e.tid && t.dvc.get(q.tid) >= q.cnt {
			m.addBacktrack(rec, q.tid)
			return
		}
	}
	for _, q := range m.threads {
		if rec.enabled&(1<<uint(q.id)) != 0 {
			m.addBacktrack(rec, q.id)
		}
	}
}

func (m *Machine) addBacktrack(rec *schedRec, tid int) {
	if rec.sleep&(1<<uint(tid)) != 0 {
		return
	}
	m.ex.mu.Lock()
	for _, e := range rec.sn.explored {
		if int(e) == tid {
			m.ex.mu.Unlock()
			return
		}
	}
	rec.sn.explored = append(rec.sn.explored, int32(tid))
	m.ex.mu.Unlock()
	d := int32(1)
	if rec.parent != nil {
		d = rec.parent.depth + 1
	}
	var mm map[string]uint64
	if m.model != nil {
		mm = m.modelMap(m.model)
	}
	m.ex.push(&Work{node: &PNode{parent: rec.parent, val: int32(tid), sn: rec.sn, depth: d}, model: mm})
}

// execOp records the visible operation of t as executed now
func (m *Machine) execOp(t *Thread, rec *schedRec) {
	p := t.pend
	// sleep set update
	if m.sleep != 0 {
		m.sleep &^= 1 << uint(t.id)
		for _, s := range m.threads {
			b := uint64(1) << uint(s.id)
			if m.sleep&b != 0 && dependent(s.pend, p) {
				m.sleep &^= b
			}
		}
	}
	if p == nil || p.local || len(p.objs) == 0 {
		return
	}
	m.raceCheck(t, p)
	t.ev++
	t.dvc.set(t.id, t.ev)
	ei := len(m.events)
	e := event{tid: t.id, cnt: t.ev, rec: rec, name: p.name}
	if t.fr != nil {
		e.fn, e.in = t.repoPos()
	}
	if rec != nil {
		rec.evIdx = ei
	}
	m.events = append(m.events, e)
	for _, o := range p.objs {
		if p.write {
			t.dvc.join(o.dvc)
			t.dvc.join(o.rvc)
			o.lastWrite = ei
			o.reads = nil
		} else {
			t.dvc.join(o.dvc)
			if o.reads == nil {
				o.reads = map[int]int{}
			}
			o.reads[t.id] = ei
		}
	}
	for _, o := range p.objs {
		if p.write {
			o.dvc = t.dvc.copy()
			o.rvc = nil
		} else {
			o.rvc.join(t.dvc)
		}
	}
}

// touch updates the dependency clock of an object without a scheduling point
// (used by operations that are part of the current step, e.g. unlock)
func (m *Machine) touch(t *Thread, o *Obj) {
	o.dvc.join(t.dvc)
}

// yield parks t at a visible operation until the scheduler selects it
func (t *Thread) yield(p *pend) {
	m := t.m
	if m.noSched > 0 {
		if p.enabled != nil && !p.enabled() {
			panic(unsupported("blocking operation during package initialisation"))
		}
		return
	}
	if m.ended {
		panic(killSignal{})
	}
	t.pend = p
	n := m.pick(t)
	if n != t {
		n.resume <- true
		if !<-t.resume {
			panic(killSignal{})
		}
	}
	t.pend = nil
}

// block parks t until enabled() holds; being woken is a local step
func (t *Thread) block(name string, enabled func() bool) {
	t.yield(&pend{name: name, enabled: enabled, local: true})
}

func (m *Machine) killAll() {
	for _, t := range m.threads {
		if !t.done {
			select {
			case t.resume <- false:
			default:
			}
		}
	}
	m.wg.Wait()
}

// ---- release / acquire for race detection ----

func (t *Thread) release(vc *vclock) {
	vc.join(t.svc)
	t.sev++
	t.svc.set(t.id, t.sev)
}

func (t *Thread) acquire(vc vclock) { t.svc.join(vc) }

// ---- locks ----

type mutexState struct {
	obj    *Obj
	held   bool
	owner  int
	vc     vclock
	reader int
	rvc    vclock
	wait   int // announced writers
}

func (m *Machine) mutex(p *Value) *mutexState {
	if s, ok := m.sync[p]; ok {
		return s.(*mutexState)
	}
	s := &mutexState{obj: m.newObj("mutex")}
	m.sync[p] = s
	return s
}

func (t *Thread) ptrArg(v Value) *Value {
	p, ok := v.(*Value)
	if !ok || p == nil {
		panic(t.m.rtPanic("invalid memory address or nil pointer dereference"))
	}
	return p
}

func (t *Thread) lock(v Value) {
	s := t.m.mutex(t.ptrArg(v))
	t.yield(&pend{name: "Lock", objs: []*Obj{s.obj}, write: true, enabled: func() bool { return !s.held }})
	if s.held {
		panic(unsupported("lock held"))
	}
	s.held = true
	s.owner = t.id
	t.acquire(s.vc)
}

func (t *Thread) tryLock(v Value) bool {
	s := t.m.mutex(t.ptrArg(v))
	t.yield(&pend{name: "TryLock", objs: []*Obj{s.obj}, write: true})
	if s.held || s.reader > 0 {
		return false
	}
	s.held = true
	t.acquire(s.vc)
	t.acquire(s.rvc)
	return true
}

func (t *Thread) tryRLock(v Value) bool {
	s := t.m.mutex(t.ptrArg(v))
	t.yield(&pend{name: "TryRLock", objs: []*Obj{s.obj}, write: true})
	if s.held || s.wait > 0 {
		return false
	}
	s.reader++
	t.acquire(s.vc)
	return true
}

func (t *Thread) unlock(v Value) {
	s := t.m.mutex(t.ptrArg(v))
	if !s.held {
		t.fatal("fatal error: sync: unlock of unlocked mutex")
	}
	s.held = false
	t.release(&s.vc)
	t.m.touch(t, s.obj)
}

func (t *Thread) rwlock(v Value) {
	s := t.m.mutex(t.ptrArg(v))
	// writers announce themselves; a blocked writer keeps new readers out
	t.yield(&pend{name: "Lock", objs: []*Obj{s.obj}, write: true, enabled: func() bool { return !s.held }})
	if s.reader > 0 || s.held {
		s.wait++
		t.yield(&pend{name: "Lock(waiting)", objs: []*Obj{s.obj}, write: true, enabled: func() bool { return !s.held && s.reader == 0 }})
		s.wait--
	}
	s.held = true
	t.acquire(s.vc)
	t.acquire(s.rvc)
}

func (t *Thread) rlock(v Value) {
	s := t.m.mutex(t.ptrArg(v))
	t.yield(&pend{name: "RLock", objs: []*Obj{s.obj}, enabled: func() bool { return !s.held && s.wait == 0 }})
	s.reader++
	t.acquire(s.vc)
}

func (t *Thread) runlock(v Value) {
	s := t.m.mutex(t.ptrArg(v))
	if s.reader < 1 {
		t.fatal("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	s.reader--
	t.release(&s.rvc)
	s.obj.rvc.join(t.dvc)
}

func (t *Thread) fatal(msg string) {
	t.m.mustModel()
	t.m.violation(t, "fatal error", "fatal", msg, t.m.model)
	panic(endPath{outFatal, msg})
}

// ---- wait groups, conds ----

type wgState struct {
	obj *Obj
	n   int64
	vc  vclock
}

func (m *Machine) wgOf(p *Value) *wgState {
	if s, ok := m.sync[p]; ok {
		return s.(*wgState)
	}
	s := &wgState{obj: m.newObj("waitgroup")}
	m.sync[p] = s
	return s
}

func (t *Thread) wgAdd(v Value, n int64) {
	s := t.m.wgOf(t.ptrArg(v))
	t.yield(&pend{name: "WaitGroup.Add", objs: []*Obj{s.obj}, write: true})
	s.n += n
	if s.n < 0 {
		panic(targetPanic{v: t.m.errStr("sync: negative WaitGroup counter")})
	}
	if n < 0 {
		t.release(&s.vc)
	}
}

func (t *Thread) wgWait(v Value) {
	s := t.m.wgOf(t.ptrArg(v))
	t.yield(&pend{name: "WaitGroup.Wait", objs: []*Obj{s.obj}, write: true, enabled: func() bool { return s.n == 0 }})
	t.acquire(s.vc)
}

type condState struct {
	obj     *Obj
	waiters []*waiter
	vc      vclock
}

func (m *Machine) condOf(p *Value) *condState {
	if s, ok := m.sync[p]; ok {
		return s.(*condState)
	}
	s := &condState{obj: m.newObj("cond")}
	m.sync[p] = s
	return s
}

// ---- atomics ----

type atomicState struct {
	obj *Obj
	vc  vclock
}

func (t *Thread) atomicPoint(p *Value, write bool, name string) *atomicState {
	m := t.m
	type ak struct{ p *Value }
	k := ak{p}
	s, ok := m.sync[k].(*atomicState)
	if !ok {
		s = &atomicState{obj: m.newObj("atomic")}
		m.sync[k] = s
	}
	t.yield(&pend{name: name, objs: []*Obj{s.obj}, write: write})
	t.acquire(s.vc)
	if write {
		t.release(&s.vc)
	}
	return s
}

// ---- channels ----

type chanItem struct {
	v  Value
	vc vclock
}

type Chan struct {
	cap    int
	buf    []chanItem
	closed bool
	cvc    vclock
	rvc    vclock
	recvq  []*waiter
	sendq  []*waiter
	obj    *Obj
	et     types.Type
}

type waiter struct {
	t      *Thread
	v      Value
	ok     bool
	done   bool
	closed bool
	grp    *waitGrp
	idx    int
	vc     vclock // synchronisation clock handed over by the waker
	dvc    vclock
	ownvc  vclock // clock of the parked thread
}

type waitGrp struct {
	fired *waiter
}

func (m *Machine) mkChan(n int, et types.Type) *Chan {
	return &Chan{cap: n, obj: m.newObj("chan"), et: et}
}

func deq(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.grp != nil && w.grp.fired != nil {
			continue
		}
		return w
	}
	return nil
}

func liveWaiter(q []*waiter) bool {
	for _, w := range q {
		if w.grp == nil || w.grp.fired == nil {
			return true
		}
	}
	return false
}

func (t *Thread) wake(w *waiter) {
	w.done = true
	if w.grp != nil {
		w.grp.fired = w
	}
	w.dvc = t.dvc.copy()
}

func (t *Thread) woken(w *waiter) {
	t.dvc.join(w.dvc)
	t.svc.join(w.vc)
}

// trySend attempts the send; ok=false when it would block
func (t *Thread) trySend(c *Chan, v Value) bool {
	if c.closed {
		panic(t.m.plainRtPanic("send on closed channel"))
	}
	if w := deq(&c.recvq); w != nil {
		w.v = v
		w.ok = true
		var vc vclock
		t.release(&vc)
		w.vc = vc
		t.svc.join(w.ownvc)
		t.wake(w)
		return true
	}
	if len(c.buf) < c.cap {
		t.acquire(c.rvc)
		var vc vclock
		t.release(&vc)
		c.buf = append(c.buf, chanItem{v, vc})
		return true
	}
	return false
}

// tryRecv attempts the receive
func (t *Thread) tryRecv(c *Chan) (v Value, ok, done bool) {
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf = append([]chanItem{}, c.buf[1:]...)
		t.acquire(it.vc)
		t.release(&c.rvc)
		if w := deq(&c.sendq); w != nil {
			c.buf = append(c.buf, chanItem{w.v, w.ownvc})
			w.ok = true
			w.vc = c.rvc.copy()
			t.wake(w)
		}
		return it.v, true, true
	}
	if w := deq(&c.sendq); w != nil {
		w.ok = true
		var vc vclock
		t.acquire(w.ownvc)
		t.release(&vc)
		w.vc = vc
		t.wake(w)
		return w.v, true, true
	}
	if c.closed {
		t.acquire(c.cvc)
		return zero(c.et), false, true
	}
	return nil, false, false
}

func (t *Thread) parkVC() vclock {
	var vc vclock
	t.release(&vc)
	return vc
}

func (t *Thread) send(v Value, x Value) {
	c, _ := v.(*Chan)
	if c == nil {
		t.block("send on nil channel", func() bool { return false })
	}
	x = copyVal(x)
	t.yield(&pend{name: "send", objs: []*Obj{c.obj}, write: true})
	if t.trySend(c, x) {
		return
	}
	w := &waiter{t: t, v: x, ownvc: t.parkVC()}
	c.sendq = append(c.sendq, w)
	t.block("send", func() bool { return w.done })
	t.woken(w)
	if w.closed {
		panic(t.m.plainRtPanic("send on closed channel"))
	}
}

func (t *Thread) recv(v Value) (Value, bool) {
	c, _ := v.(*Chan)
	if c == nil {
		t.block("receive on nil channel", func() bool { return false })
	}
	t.yield(&pend{name: "recv", objs: []*Obj{c.obj}, write: true})
	if x, ok, done := t.tryRecv(c); done {
		return x, ok
	}
	w := &waiter{t: t, ownvc: t.parkVC()}
	c.recvq = append(c.recvq, w)
	t.block("recv", func() bool { return w.done })
	t.woken(w)
	if w.closed {
		return zero(c.et), false
	}
	return w.v, w.ok
}

func (t *Thread) closeChan(v Value) {
	c, _ := v.(*Chan)
	if c == nil {
		panic(t.m.plainRtPanic("close of nil channel"))
	}
	t.yield(&pend{name: "close", objs: []*Obj{c.obj}, write: true})
	t.closeNow(c)
}

func (t *Thread) closeNow(c *Chan) {
	if c.closed {
		panic(t.m.plainRtPanic("close of closed channel"))
	}
	c.closed = true
	t.release(&c.cvc)
	for {
		w := deq(&c.recvq)
		if w == nil {
			break
		}
		w.closed = true
		w.vc = c.cvc.copy()
		t.wake(w)
	}
	for {
		w := deq(&c.sendq)
		if w == nil {
			break
		}
		w.closed = true
		w.vc = c.cvc.copy()
		t.wake(w)
	}
}

type selCase struct {
	c    *Chan
	send bool
	v    Value
}

// selectOp returns the chosen index (-1: default), received value and ok
func (t *Thread) selectOp(cases []selCase, blocking bool) (int, Value, bool) {
	var objs []*Obj
	for _, c := range cases {
		if c.c != nil {
			objs = append(objs, c.c.obj)
		}
	}
	if len(objs) > 0 {
		t.yield(&pend{name: "select", objs: objs, write: true})
	}
	var ready []int
	for i, c := range cases {
		if c.c == nil {
			continue
		}
		if c.send {
			if c.c.closed || liveWaiter(c.c.recvq) || len(c.c.buf) < c.c.cap {
				ready = append(ready, i)
			}
		} else {
			if len(c.c.buf) > 0 || c.c.closed || liveWaiter(c.c.sendq) {
				ready = append(ready, i)
			}
		}
	}
	if len(ready) > 0 {
		i := ready[0]
		if len(ready) > 1 {
			i = ready[t.m.Choose(len(ready))]
		}
		c := cases[i]
		if c.send {
			t.trySend(c.c, c.v)
			return i, nil, false
		}
		v, ok, _ := t.tryRecv(c.c)
		return i, v, ok
	}
	if !blocking {
		return -1, nil, false
	}
	g := &waitGrp{}
	vc := t.parkVC()
	for i, c := range cases {
		if c.c == nil {
			continue
		}
		w := &waiter{t: t, v: c.v, grp: g, idx: i, ownvc: vc}
		if c.send {
			c.c.sendq = append(c.c.sendq, w)
		} else {
			c.c.recvq = append(c.c.recvq, w)
		}
	}
	t.block("select", func() bool { return g.fired != nil })
	w := g.fired
	t.woken(w)
	c := cases[w.idx]
	if c.send {
		if w.closed {
			panic(t.m.plainRtPanic("send on closed channel"))
		}
		return w.idx, nil, false
	}
	if w.closed {
		return w.idx, zero(c.c.et), false
	}
	return w.idx, w.v, w.ok
}

// ---- timers ----

type timerState struct {
	key    *Value
	ch     *Chan
	fn     Value
	when   int64
	period int64 // of a ticker
	active bool
	seq    int
	obj    *Obj
	thread *Thread
}

func (m *Machine) nextTimer() *timerState {
	var best *timerState
	for _, tm := range m.timers {
		if tm.active && (best == nil || tm.when < best.when || tm.when == best.when && tm.seq < best.seq) {
			best = tm
		}
	}
	return best
}

// fireTimer fires the timer as a step of a fresh pseudo thread
func (m *Machine) fireTimer(tm *timerState) *Thread {
	tm.active = false
	if tm.when > m.now {
		m.now = tm.when
	}
	if tm.period > 0 {
		tm.active = true
		tm.when = m.now + tm.period
	}
	t := m.newThread(m.threads[0], "timer")
	m.joinAll(t)
	t.pend = nil
	t.goRun(func() {
		if tm.ch != nil {
			t.yield(&pend{name: "timer", objs: []*Obj{tm.ch.obj}, write: true})
			if len(tm.ch.buf) < tm.ch.cap || liveWaiter(tm.ch.recvq) {
				t.trySend(tm.ch, m.timeValue(m.now))
			}
			return
		}
		t.callValue(tm.fn, nil, nil)
	})
	return t
}

// ---- data races ----

type shAccess struct {
	tid    int
	clk    int32
	in     ssa.Instruction
	fn     *ssa.Function
	atomic bool
}

type shadow struct {
	w     shAccess
	hasW  bool
	reads []shAccess
}

func (m *Machine) access(t *Thread, key interface{}, write bool, in ssa.Instruction, fn *ssa.Function) {
	m.accessMem(t, key, write, in, fn, false)
}

func (m *Machine) accessAtomic(t *Thread, key interface{}, write bool, in ssa.Instruction, fn *ssa.Function) {
	m.accessMem(t, key, write, in, fn, true)
}

func (m *Machine) accessMem(t *Thread, key interface{}, write bool, in ssa.Instruction, fn *ssa.Function, atomic bool) {
	if len(m.threads) < 2 {
		// accesses before any other goroutine exists happen before everything
		return
	}
	sh := m.shadow[key]
	if sh == nil {
		sh = &shadow{}
		m.shadow[key] = sh
	}
	if sh.hasW && sh.w.tid != t.id && !(atomic && sh.w.atomic) && t.svc.get(sh.w.tid) < sh.w.clk {
		m.reportRace(t, sh.w, true, in, fn, write)
	}
	if write {
		for _, r := range sh.reads {
			if r.tid != t.id && !(atomic && r.atomic) && t.svc.get(r.tid) < r.clk {
				m.reportRace(t, r, false, in, fn, true)
			}
		}
		sh.hasW = true
		sh.w = shAccess{t.id, t.sev, in, fn, atomic}
		sh.reads = sh.reads[:0]
		return
	}
	for i := range sh.reads {
		if sh.reads[i].tid == t.id {
			sh.reads[i] = shAccess{t.id, t.sev, in, fn, atomic}
			return
		}
	}
	sh.reads = append(sh.reads, shAccess{t.id, t.sev, in, fn, atomic})
}

func posOf(in ssa.Instruction, fn *ssa.Function) string {
	if in == nil || fn == nil {
		return "?"
	}
	p := instrPos(in, fn)
	return fmt.Sprintf("%s:%d", shortFile(p), p.Line)
}

func instrPos(in ssa.Instruction, fn *ssa.Function) token.Position {
	pos := in.Pos()
	if !pos.IsValid() {
		// find a nearby position in the block
		b := in.Block()
		if b != nil {
			seen := false
			for _, x := range b.Instrs {
				if x == in {
					seen = true
				}
				if seen && x.Pos().IsValid() {
					pos = x.Pos()
					break
				}
			}
		}
		if !pos.IsValid() {
			pos = fn.Pos()
		}
	}
	return fn.Prog.Fset.Position(pos)
}

func (m *Machine) reportRace(t *Thread, a shAccess, aw bool, in ssa.Instruction, fn *ssa.Function, bw bool) {
	k := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	desc := fmt.Sprintf("%s at %s (%s) / %s at %s (%s)", k(aw), posOf(a.in, a.fn), fnName(a.fn), k(bw), posOf(in, fn), fnName(fn))
	f1, f2 := fnName(a.fn), fnName(fn)
	if f1 > f2 {
		f1, f2 = f2, f1
	}
	m.ex.noteRace(a.in, in, desc)
	if m.ex.opts.Races && m.haveModel() {
		m.violation(t, "data race "+f1+"/"+f2, "race", desc, m.model)
	}
}

func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.RelString(nil)
}
