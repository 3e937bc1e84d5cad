package main

// The explorer: a worklist of decision prefixes processed by parallel workers.

import (
	"fmt"
	"go/ast"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Opts struct {
	Races    bool  // report data races as violations
	NoDPOR   bool  // explore every schedule
	Eager    bool  // timers may fire at any moment
	MaxSteps int64 // instruction budget per path
	Rounds   int   // maximum rounds of racy-access refinement
	Fatal    bool
	NoNative bool // the harness relies on a modelled environment
	Delays   int  // >0: explore schedules that deviate at most so often
	SecQuick int  // time budget override in seconds
	SecFull  int
}

func defaultOpts() Opts {
	return Opts{MaxSteps: 4_000_000, Rounds: 2}
}

// parseOpts reads "//verif:opts k=v ..." lines from the harness' doc comment
func parseOpts(fn *ssa.Function, o *Opts) {
	for _, c := range docOf(fn) {
		if !strings.HasPrefix(c, "//verif:opts") {
			continue
		}
		for _, f := range strings.Fields(c)[1:] {
			k, v := f, ""
			if i := strings.IndexByte(f, '='); i >= 0 {
				k, v = f[:i], f[i+1:]
			}
			n, _ := strconv.Atoi(v)
			switch k {
			case "races":
				o.Races = true
			case "nodpor":
				o.NoDPOR = true
			case "eager":
				o.Eager = true
			case "maxsteps":
				o.MaxSteps = int64(n)
			case "nonative":
				o.NoNative = true
			case "rounds":
				o.Rounds = n
			case "delays":
				o.Delays = n
			case "quick":
				o.SecQuick = n
			case "full":
				o.SecFull = n
			default:
				fmt.Fprintln(os.Stderr, "unknown harness option", k)
			}
		}
	}
}

func docOf(fn *ssa.Function) []string {
	d, ok := fn.Syntax().(*ast.FuncDecl)
	if !ok || d.Doc == nil {
		return nil
	}
	var out []string
	for _, c := range d.Doc.List {
		out = append(out, c.Text)
	}
	return out
}

// runDecisions follows a recorded path
func (ex *Explorer) runDecisions(v *Violation) {
	// re-exploration is deterministic: explore until the same violation shows
	ex.run(120 * time.Second)
}

type wstats struct {
	folded, asserts, discharged int64
}

type Worker struct {
	ex         *Explorer
	sol        *Solver
	begun      bool
	stats      wstats
	fns        map[*fnInfo]bool
	crashStack string
}

func (w *Worker) noteFn(fi *fnInfo) {
	if !w.fns[fi] {
		w.fns[fi] = true
	}
}

func (w *Worker) query(m *Machine, extra *Term) (Result, *Model) {
	if !w.begun {
		w.sol.Begin()
		w.begun = true
	}
	return w.sol.Check(m.pc, extra, m.tb.vars)
}

type Violation struct {
	Property   string            `json:"property"`
	Harness    string            `json:"harness"`
	Label      string            `json:"label"`
	Kind       string            `json:"kind"`
	Msg        string            `json:"msg,omitempty"`
	Vars       map[string]uint64 `json:"vars"`
	Notes      []string          `json:"notes,omitempty"`
	Decisions  []int32           `json:"decisions"`
	Stack      []string          `json:"stack,omitempty"`
	Trace      []string          `json:"trace,omitempty"`
	MultiSched bool              `json:"multi_sched"`
	Racy       []string          `json:"racy_points,omitempty"`
	Tier       int               `json:"tier"`
	Native     string            `json:"native_replay,omitempty"`
	count      int
}

type Explorer struct {
	prog    *Program
	harness string
	entry   *ssa.Function
	opts    Opts
	tier    int
	debug   bool
	racy    map[ssa.Instruction]bool
	nw      int
	solver  string

	mu       sync.Mutex
	cond     *sync.Cond
	work     []*Work
	busy     int
	stop     bool
	deadline time.Time

	paths      int64
	outcomes   map[outcome]int
	msgs       map[string]int
	violations map[string]*Violation
	asserts    map[string]int64
	covers     map[string]int64
	races      map[string]int
	racyFound  map[ssa.Instruction]bool
	unknown    int64
	maxSteps   int64
	maxThreads int
	totalSteps int64
	schedDec   int64
	fns        map[*fnInfo]bool
	stats      wstats
	queries    int64
	sat, unsat int64
	unkQ       int64
	solverTime time.Duration
	wall       time.Duration
	complete   bool
	rounds     int
	samples    []pathSample
	started    bool
	once       bool // run a single work item only
	maxViol    int
}

func newExplorer(p *Program, fn *ssa.Function) *Explorer {
	ex := &Explorer{
		prog: p, entry: fn, harness: fn.Name(), opts: defaultOpts(),
		nw: runtime.NumCPU(), solver: "z3-new",
	}
	parseOpts(fn, &ex.opts)
	ex.cond = sync.NewCond(&ex.mu)
	ex.violations = map[string]*Violation{}
	ex.maxViol = 12
	return ex
}

func (ex *Explorer) reset() {
	ex.work = nil
	ex.busy = 0
	ex.stop = false
	ex.outcomes = map[outcome]int{}
	ex.msgs = map[string]int{}
	ex.asserts = map[string]int64{}
	ex.covers = map[string]int64{}
	ex.races = map[string]int{}
	ex.racyFound = map[ssa.Instruction]bool{}
}

func (ex *Explorer) push(w *Work) {
	ex.mu.Lock()
	if !ex.once {
		ex.work = append(ex.work, w)
		ex.cond.Signal()
	}
	ex.mu.Unlock()
}

func (ex *Explorer) noteUnknown() { atomic.AddInt64(&ex.unknown, 1) }

func (ex *Explorer) noteAssert(l string) {
	ex.mu.Lock()
	ex.asserts[l]++
	ex.mu.Unlock()
}

func (ex *Explorer) noteCover(l string) {
	ex.mu.Lock()
	ex.covers[l]++
	ex.mu.Unlock()
}

func (ex *Explorer) noteMsg(s string) {
	ex.mu.Lock()
	ex.msgs[s]++
	ex.mu.Unlock()
}

func (ex *Explorer) noteDone() {}

func (ex *Explorer) noteRace(a, b ssa.Instruction, desc string) {
	ex.mu.Lock()
	ex.races[desc]++
	if a != nil {
		ex.racyFound[a] = true
	}
	if b != nil {
		ex.racyFound[b] = true
	}
	ex.mu.Unlock()
}

func (ex *Explorer) addViolation(v *Violation) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	v.Tier = ex.tier
	k := v.Kind + ":" + v.Label
	if v.Kind == "panic" || v.Kind == "fatal" {
		// panics are told apart by where they happen
		k += ":" + v.Msg
	}
	if o := ex.violations[k]; o != nil {
		o.count++
		if v.Kind == "hang" && o.count >= 8 {
			ex.stop, ex.complete = true, false
			ex.cond.Broadcast()
		}
		if len(v.Decisions) < len(o.Decisions) {
			v.count = o.count
			ex.violations[k] = v
		}
		return
	}
	v.count = 1
	for in := range ex.racy {
		v.Racy = append(v.Racy, in.Parent().String()+"@"+instrID(in))
	}
	sort.Strings(v.Racy)
	ex.violations[k] = v
	if len(ex.violations) >= ex.maxViol {
		ex.stop = true
		ex.cond.Broadcast()
	}
}

func instrID(in ssa.Instruction) string {
	b := in.Block()
	for i, x := range b.Instrs {
		if x == in {
			return fmt.Sprintf("%d.%d", b.Index, i)
		}
	}
	return "?"
}

// run explores within the time budget
func (ex *Explorer) run(budget time.Duration) {
	t0 := time.Now()
	ex.deadline = t0.Add(budget)
	ex.fns = map[*fnInfo]bool{}
	for ex.rounds = 1; ; ex.rounds++ {
		ex.reset()
		ex.round([]*Work{{}})
		if ex.rounds > ex.opts.Rounds || len(ex.violations) > 0 {
			break
		}
		// racy accesses become scheduling points in the next round
		nw := false
		if ex.racy == nil {
			ex.racy = map[ssa.Instruction]bool{}
		}
		for in := range ex.racyFound {
			if !ex.racy[in] {
				ex.racy[in] = true
				nw = true
			}
		}
		if !nw || time.Now().After(ex.deadline) {
			break
		}
		if ex.opts.Delays == 0 {
			// most effects of a race need few deviations: these first
			end := ex.deadline
			if t := time.Now().Add(20 * time.Second); t.Before(end) {
				ex.deadline = t
			}
			found := ex.racyFound
			ex.opts.Delays = 2
			ex.reset()
			ex.round([]*Work{{}})
			ex.opts.Delays = 0
			if len(ex.violations) > 0 {
				break
			}
			ex.racyFound, ex.deadline = found, end
		}
	}
	ex.wall = time.Since(t0)
}

func (ex *Explorer) round(init []*Work) {
	ex.work = init
	ex.complete = true
	stopTimer := time.AfterFunc(time.Until(ex.deadline), func() {
		ex.mu.Lock()
		if len(ex.work) > 0 || ex.busy > 0 {
			ex.complete = false
		}
		ex.stop = true
		ex.cond.Broadcast()
		ex.mu.Unlock()
	})
	defer stopTimer.Stop()
	var wg sync.WaitGroup
	for i := 0; i < ex.nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &Worker{ex: ex, fns: map[*fnInfo]bool{}}
			sol, err := NewSolver(ex.solver, 3*time.Second)
			if err != nil {
				fmt.Fprintln(os.Stderr, "solver:", err)
				os.Exit(3)
			}
			w.sol = sol
			defer func() {
				sol.Close()
				ex.mu.Lock()
				ex.queries += sol.Queries
				ex.sat += sol.Sat
				ex.unsat += sol.Unsat
				ex.unkQ += sol.Unknown
				ex.solverTime += sol.Time
				ex.stats.folded += w.stats.folded
				ex.stats.asserts += w.stats.asserts
				ex.stats.discharged += w.stats.discharged
				for f := range w.fns {
					ex.fns[f] = true
				}
				ex.mu.Unlock()
			}()
			for {
				ex.mu.Lock()
				for len(ex.work) == 0 && ex.busy > 0 && !ex.stop {
					ex.cond.Wait()
				}
				if ex.stop || len(ex.work) == 0 {
					if len(ex.work) > 0 {
						ex.complete = false
					}
					ex.cond.Broadcast()
					ex.mu.Unlock()
					return
				}
				wk := ex.work[len(ex.work)-1]
				ex.work = ex.work[:len(ex.work)-1]
				ex.busy++
				ex.mu.Unlock()
				m := ex.runPath(w, wk)
				ex.mu.Lock()
				ex.busy--
				ex.paths++
				ex.outcomes[m.out]++
				if m.out == outUnsupported || m.out == outBudget {
					ex.msgs[m.outMsg]++
				}
				if m.steps > ex.maxSteps {
					ex.maxSteps = m.steps
				}
				if len(m.threads) > ex.maxThreads {
					ex.maxThreads = len(m.threads)
				}
				ex.totalSteps += m.steps
				ex.schedDec += int64(m.schedN)
				if len(ex.samples) < 12 && ex.paths&(ex.paths-1) == 0 && m.out == outDone && m.model != nil {
					ex.samples = append(ex.samples, m.sampleOf())
				}
				if len(ex.work) == 0 && ex.busy == 0 {
					ex.cond.Broadcast()
				}
				ex.mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if len(ex.work) > 0 {
		ex.complete = false
	}
}

func (m *Machine) sample() string {
	var b strings.Builder
	fmt.Fprintf(&b, "path with %d decisions, %d constraints", len(m.decs()), len(m.pc))
	k := 0
	for _, v := range m.tb.vars {
		if k >= 24 {
			b.WriteString(" ...")
			break
		}
		fmt.Fprintf(&b, " %s=%d", v.name, m.model.Eval(v))
		k++
	}
	for _, c := range m.choices {
		fmt.Fprintf(&b, " %s=%d", c.name, c.v)
	}
	if len(m.threads) > 1 {
		tr := m.eventTrace()
		if len(tr) > 12 {
			tr = tr[:12]
		}
		fmt.Fprintf(&b, " schedule: %s", strings.Join(tr, "; "))
	}
	return b.String()
}

func (m *Machine) decs() []int32 {
	var d []int32
	for n := m.cur; n != nil; n = n.parent {
		d = append(d, n.val)
	}
	return d
}

func (ex *Explorer) runPath(w *Worker, wk *Work) *Machine {
	m := newMachine(ex, w, wk)
	w.begun = false
	t := m.newThread(nil, "main")
	t.goRun(func() {
		t.callSSA(ex.entry, nil, nil)
	})
	t.resume <- true
	<-m.doneCh
	m.killAll()
	if w.crashStack != "" {
		fmt.Fprintln(os.Stderr, w.crashStack)
		w.crashStack = ""
	}
	return m
}
