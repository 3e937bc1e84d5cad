package main

// Machine executes one path: a deterministic re-execution driven by a prefix
// of recorded decisions, extended with fresh decisions whose alternatives are
// queued on the explorer's worklist.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// PNode is a node of the decision tree (shared by all paths of one harness)
type PNode struct {
	parent *PNode
	val    int32
	sn     *SchedNode
	depth  int32
	cv     uint64 // candidate value (Concretize)
}

// SchedNode keeps the threads already explored (or queued) at one scheduling
// decision, in insertion order
type SchedNode struct {
	explored []int32
}

// Work is a queued path prefix
type Work struct {
	node  *PNode
	model map[string]uint64
}

const (
	decFalse   = 0
	decTrue    = 1
	decImplied = 2
)

type outcome int

const (
	outRunning outcome = iota
	outDone
	outPruned
	outRedundant
	outUnsupported
	outBudget
	outFatal
)

type unsupportedErr struct{ msg string }

func unsupported(msg string) unsupportedErr { return unsupportedErr{msg} }

type killSignal struct{}

type targetPanic struct {
	v     Iface
	where string
}

// endPath is thrown to terminate the current path
type endPath struct {
	out outcome
	msg string
}

type Machine struct {
	ex   *Explorer
	w    *Worker
	tb   *TB
	pc   []*Term
	vis  map[*Term]bool // decided conditions
	rngs map[*Term]rng  // bounds that follow from them

	model   *Model
	inherit map[string]uint64

	prefix []*PNode
	pos    int
	cur    *PNode

	threads []*Thread
	globals []*Value
	inited  map[*ssa.Package]bool
	noSched int

	nvar  map[string]int
	steps int64

	sync    map[interface{}]interface{} // sync primitive state by address
	sleep   uint64
	events  []event
	recs    []*schedRec
	shadow  map[interface{}]*shadow
	now     int64
	timers  []*timerState
	pools   map[*Value]*poolState
	fs      *memFS
	jsonTok map[string]*jnode
	njson   int
	nondetN int
	randLog []*Term
	schedN  int
	delays  int  // deviations from the fixed schedule
	calm    bool // the schedule is fixed for now
	wg      sync.WaitGroup
	doneCh  chan struct{}
	out     outcome
	outMsg  string
	ended   bool
	notes   []string
	mainOk  bool
	randN   int
	named   map[string]*Obj
	choices []choiceRec
	initFn  *ssa.Function
	obs     []obsRec
}

func nextVer() int64 { return atomic.AddInt64(&modelVer, 1) }

// haveModel makes sure the path is feasible and a model is at hand
func (m *Machine) haveModel() bool {
	if m.model != nil {
		return true
	}
	r, mod := m.query(nil)
	if r == RSat {
		m.model = mod
		return true
	}
	if r == RUnknown {
		m.ex.noteUnknown()
	}
	return false
}

func (m *Machine) mustModel() {
	if !m.haveModel() {
		panic(endPath{outPruned, "infeasible"})
	}
}

func newMachine(ex *Explorer, w *Worker, wk *Work) *Machine {
	m := &Machine{
		ex: ex, w: w, tb: NewTB(),
		vis:     map[*Term]bool{},
		rngs:    map[*Term]rng{},
		inherit: wk.model,
		globals: make([]*Value, len(ex.prog.globals)),
		inited:  map[*ssa.Package]bool{},
		nvar:    map[string]int{},
		sync:    map[interface{}]interface{}{},
		shadow:  map[interface{}]*shadow{},
		pools:   map[*Value]*poolState{},
		jsonTok: map[string]*jnode{},
		named:   map[string]*Obj{},
		doneCh:  make(chan struct{}),
		now:     1700000000 * 1e9,
	}
	if wk.node == nil || wk.model != nil {
		m.model = &Model{vals: map[*Term]uint64{}, ver: nextVer()}
	}
	if wk.node != nil {
		n := int(wk.node.depth)
		m.prefix = make([]*PNode, n)
		for p := wk.node; p != nil; p = p.parent {
			m.prefix[p.depth-1] = p
		}
	}
	return m
}

func (m *Machine) replaying() bool { return m.pos < len(m.prefix) }

func (m *Machine) newVar(name string, w uint8) *Term {
	k := m.nvar[name]
	m.nvar[name] = k + 1
	full := fmt.Sprintf("%s#%d", name, k)
	t := m.tb.Var(full, w)
	if m.model != nil {
		if v, ok := m.inherit[full]; ok {
			m.model.vals[t] = v & maskB(w)
		}
	}
	return t
}

func maskB(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func (m *Machine) addPC(c *Term) {
	if c.True() {
		return
	}
	m.pc = append(m.pc, c)
	m.know(c, true)
}

func (m *Machine) step(val int32, sn *SchedNode) {
	d := int32(1)
	if m.cur != nil {
		d = m.cur.depth + 1
	}
	m.cur = &PNode{parent: m.cur, val: val, sn: sn, depth: d}
}

func (m *Machine) child(val int32, sn *SchedNode) *PNode {
	d := int32(1)
	if m.cur != nil {
		d = m.cur.depth + 1
	}
	return &PNode{parent: m.cur, val: val, sn: sn, depth: d}
}

func (m *Machine) modelMap(mod *Model) map[string]uint64 {
	if mod == nil {
		return nil
	}
	r := make(map[string]uint64, len(m.tb.vars))
	for _, v := range m.tb.vars {
		if x := mod.vals[v]; x != 0 {
			r[v.name] = x
		} else {
			r[v.name] = 0
		}
	}
	return r
}

func (m *Machine) query(extra *Term) (Result, *Model) {
	return m.w.query(m, extra)
}

// Branch decides a boolean term, forking when both outcomes are feasible
func (m *Machine) Branch(c *Term) bool {
	if c.IsConst() {
		return c.c == 1
	}
	if v, ok := m.follows(c, 12); ok {
		return v
	}
	if m.replaying() {
		n := m.prefix[m.pos]
		m.pos++
		m.cur = n
		take := n.val&1 == 1
		if n.val&decImplied != 0 {
			m.know(c, take)
		} else if take {
			m.addPC(c)
		} else {
			m.addPC(m.tb.Not(c))
		}
		return take
	}
	nc := m.tb.Not(c)
	var v bool
	if m.model != nil {
		v = m.model.Eval(c) != 0
	} else {
		r, mod := m.query(c)
		switch r {
		case RSat:
			v = true
			m.model = mod
		case RUnsat:
			m.step(decFalse|decImplied, nil)
			m.know(c, false)
			return false
		default:
			v = true
		}
	}
	other := nc
	if !v {
		other = c
	}
	r, mod := m.query(other)
	if r == RUnsat {
		val := int32(decImplied)
		if v {
			val |= 1
		}
		m.step(val, nil)
		m.know(c, v)
		return v
	}
	// both sides (possibly) feasible
	var ov, sv int32
	if v {
		sv = 1
	} else {
		ov = 1
	}
	wk := &Work{node: m.child(ov, nil)}
	if r == RSat {
		wk.model = m.modelMap(mod)
	} else {
		m.ex.noteUnknown()
	}
	m.ex.push(wk)
	m.step(sv, nil)
	if v {
		m.addPC(c)
	} else {
		m.addPC(nc)
	}
	return v
}

func (m *Machine) know(c *Term, v bool) {
	m.vis[c] = v
	m.vis[m.tb.Not(c)] = !v
	m.learn(c, v)
}

// Choose is an unconstrained n-way nondeterministic choice
func (m *Machine) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.replaying() {
		p := m.prefix[m.pos]
		m.pos++
		m.cur = p
		return int(p.val)
	}
	var mm map[string]uint64
	if m.model != nil {
		mm = m.modelMap(m.model)
	}
	for i := n - 1; i >= 1; i-- {
		m.ex.push(&Work{node: m.child(int32(i), nil), model: mm})
	}
	m.step(0, nil)
	return 0
}

// Concretize forks over all feasible values of t
func (m *Machine) Concretize(t *Term) uint64 {
	for i := 0; ; i++ {
		if t.IsConst() {
			return t.c
		}
		if i > 5000 {
			panic(unsupported("too many values to concretise"))
		}
		// when replaying the candidate value must be the recorded one; the
		// candidate is stored in the decision tree right before the branch
		var cand uint64
		if m.replaying() {
			p := m.prefix[m.pos]
			m.pos++
			m.cur = p
			cand = p.cv
		} else {
			if m.model == nil {
				r, mod := m.query(nil)
				if r != RSat {
					panic(endPath{outPruned, "no model"})
				}
				m.model = mod
			}
			cand = m.model.Eval(t)
			m.step(0, nil)
			m.cur.cv = cand
		}
		if m.Branch(m.tb.Eq(t, Const(t.w, cand))) {
			return cand
		}
	}
}

// Assume constrains the path
func (m *Machine) Assume(c *Term) {
	if c.True() {
		return
	}
	if c.False() {
		panic(endPath{outPruned, "assume"})
	}
	if v, ok := m.follows(c, 12); ok {
		if v {
			return
		}
		panic(endPath{outPruned, "assume"})
	}
	if m.replaying() {
		m.addPC(c)
		return
	}
	if m.model == nil || m.model.Eval(c) == 0 {
		r, mod := m.query(c)
		if r == RUnsat {
			panic(endPath{outPruned, "assume"})
		}
		m.model = mod
	}
	m.addPC(c)
}

// Assert checks c on all values of the current path
func (m *Machine) Assert(t *Thread, c *Term, label, kind string) {
	st := &m.w.stats
	if c.True() {
		if !m.replaying() {
			st.folded++
			m.ex.noteAssert(label)
		}
		return
	}
	if v, ok := m.follows(c, 12); ok && v {
		if !m.replaying() {
			st.folded++
			m.ex.noteAssert(label)
		}
		return
	}
	if m.replaying() {
		m.Assume(c)
		return
	}
	m.ex.noteAssert(label)
	st.asserts++
	nc := m.tb.Not(c)
	var mod *Model
	if c.False() {
		mod = m.model
		if mod == nil {
			r, mm := m.query(nil)
			if r != RSat {
				panic(endPath{outPruned, "infeasible"})
			}
			mod = mm
		}
	} else if m.model != nil && m.model.Eval(nc) != 0 {
		mod = m.model
		// confirm with the solver so that every verdict is the solver's
		r, mm := m.query(nc)
		if r == RSat {
			mod = mm
		}
	} else {
		r, mm := m.query(nc)
		switch r {
		case RUnsat:
			st.discharged++
			m.know(c, true)
			return
		case RUnknown:
			m.ex.noteUnknown()
			m.ex.noteMsg("solver gave no answer for assertion " + label)
			m.Assume(c)
			return
		}
		mod = mm
	}
	m.violation(t, label, kind, "", mod)
	if c.False() {
		panic(endPath{outDone, "after violation"})
	}
	m.Assume(c)
}

// violation records a counterexample
func (m *Machine) violation(t *Thread, label, kind, msg string, mod *Model) {
	v := &Violation{
		Harness: m.ex.harness,
		Label:   label,
		Kind:    kind,
		Msg:     msg,
		Vars:    map[string]uint64{},
		Notes:   append([]string{}, m.notes...),
	}
	if mod != nil {
		for _, x := range m.tb.vars {
			if !strings.HasPrefix(x.name, "sched") {
				v.Vars[x.name] = mod.vals[x]
			}
		}
	}
	for _, c := range m.choices {
		v.Vars[c.name] = c.v
	}
	for n := m.cur; n != nil; n = n.parent {
		v.Decisions = append(v.Decisions, n.val)
	}
	for i, j := 0, len(v.Decisions)-1; i < j; i, j = i+1, j-1 {
		v.Decisions[i], v.Decisions[j] = v.Decisions[j], v.Decisions[i]
	}
	if t != nil {
		v.Stack = t.stack()
	}
	v.Trace = m.eventTrace()
	v.MultiSched = len(m.threads) > 1
	m.ex.addViolation(v)
}

// overBudget ends a path that doesn't come to an end. The path is a candidate
// for an endless loop, which is reported if the compiled code doesn't come to
// an end with the same input either
func (m *Machine) overBudget(t *Thread) {
	if !m.ex.opts.NoNative || len(m.threads) < 2 {
		m.mustModel()
		m.violation(t, "the code doesn't come to an end", "hang", "still running after "+fmt.Sprint(m.steps)+" instructions at "+t.where(), m.model)
	}
	panic(endPath{outBudget, "step budget at " + t.where()})
}

func (m *Machine) eventTrace() []string {
	var out []string
	for _, e := range m.events {
		out = append(out, fmt.Sprintf("T%d %s %s", e.tid, e.name, e.pos()))
	}
	return out
}

func (m *Machine) note(s string) { m.notes = append(m.notes, s) }

// globalPtr returns the address of a global, running its package's
// initialisation first if necessary
func (m *Machine) globalPtr(t *Thread, g *ssa.Global) *Value {
	id := m.ex.prog.gid[g]
	if p := m.globals[id]; p != nil {
		return p
	}
	if pkg := g.Pkg; pkg != nil && !m.inited[pkg] {
		m.initPkg(t, pkg)
		if p := m.globals[id]; p != nil {
			return p
		}
	}
	return m.newGlobal(id, g)
}

func (m *Machine) newGlobal(id int, g *ssa.Global) *Value {
	v := zero(g.Type().Underlying().(*types.Pointer).Elem())
	p := &v
	m.globals[id] = p
	return p
}

func (m *Machine) initPkg(t *Thread, pkg *ssa.Package) {
	m.inited[pkg] = true
	// allocate all globals first so that accesses during init terminate
	for _, g := range m.ex.prog.pkgGlobals[pkg] {
		id := m.ex.prog.gid[g]
		if m.globals[id] == nil {
			m.newGlobal(id, g)
		}
	}
	if m.ex.prog.skipInit(pkg) {
		presetGlobals(m, t, pkg)
		return
	}
	init := pkg.Func("init")
	if init == nil || len(init.Blocks) == 0 {
		return
	}
	m.noSched++
	saved := t.fr
	lenient := !m.ex.prog.isRepo(pkg)
	if lenient {
		t.lenient++
	}
	defer func() {
		m.noSched--
		if lenient {
			t.lenient--
		}
		t.fr = saved
	}()
	m.initFn = init
	t.callSSA(init, nil, nil)
}

func (m *Machine) rtPanic(msg string) targetPanic {
	msg = strings.TrimPrefix(msg, "runtime error: ")
	return targetPanic{v: Iface{t: m.ex.prog.rtErrType, v: msg}}
}

func sortedKeys(mm map[string]uint64) []string {
	var ks []string
	for k := range mm {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
