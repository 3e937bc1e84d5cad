package main

// The check command: runs every harness of a property's package, confirms
// counterexamples against the compiled code, applies the known-findings file,
// and writes the evidence.

import (
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// root is the directory of the framework (the engine is run through a wrapper
// that sets VERIF_ROOT)
func verifRoot() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

type known struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Kind     string `json:"kind"`
	Label    string `json:"label"`
	Msg      string `json:"msg"`
	What     string `json:"what"`
}

// loadKnown reads the known-findings file. Lines starting with "known:" hold a
// JSON object; "fixed:" lines are history and suppress nothing.
func loadKnown(path string) ([]known, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		var k known
		if err := json.Unmarshal([]byte(strings.TrimPrefix(l, "known:")), &k); err != nil {
			return nil, fmt.Errorf("%s: %v", path, err)
		}
		out = append(out, k)
	}
	return out, nil
}

func (k known) matches(prop string, v *Violation) bool {
	return k.Property == prop && k.Harness == v.Harness && k.Kind == v.Kind && k.Label == v.Label &&
		(k.Msg == "" || strings.Contains(v.Msg, k.Msg))
}

// native runs harnesses in the compiled code
type native struct {
	pkg   string
	names []string
	dir   string
	bin   string
	err   error
}

func newNative(pkg string, fns []*ssa.Function) *native {
	n := &native{pkg: pkg}
	for _, f := range fns {
		n.names = append(n.names, f.Name())
	}
	return n
}

func (n *native) build() error {
	if n.bin != "" || n.err != nil {
		return n.err
	}
	d, err := os.MkdirTemp("", "verifnative")
	if err != nil {
		n.err = err
		return err
	}
	n.dir = d
	var b strings.Builder
	fmt.Fprintf(&b, "package main\n\nimport (\n\t\"fmt\"\n\t\"os\"\n\n\th %q\n\t\"verifh/nd\"\n)\n\n", n.pkg)
	b.WriteString("func main() {\n\tif err := nd.Load(os.Args[2]); err != nil {\n\t\tfmt.Println(err)\n\t\tos.Exit(9)\n\t}\n\tswitch os.Args[1] {\n")
	for _, x := range n.names {
		fmt.Fprintf(&b, "\tcase %q:\n\t\th.%s()\n", x, x)
	}
	b.WriteString("\t}\n\tfmt.Println(\"ND-OK\")\n}\n")
	if err := os.WriteFile(filepath.Join(d, "main.go"), []byte(b.String()), 0o644); err != nil {
		n.err = err
		return err
	}
	bin := filepath.Join(d, "native")
	c := exec.Command("go", "build", "-o", bin, filepath.Join(d, "main.go"))
	c.Dir = d
	if out, err := c.CombinedOutput(); err != nil {
		n.err = fmt.Errorf("native build: %v\n%s", err, out)
		return n.err
	}
	n.bin = bin
	return nil
}

func (n *native) close() {
	if n.dir != "" {
		os.RemoveAll(n.dir)
	}
}

type nativeResult struct {
	code    int
	out     string
	timeout bool
	obs     []string
	label   string
}

func (n *native) run(h string, vars map[string]uint64, tier int, limit time.Duration) (nativeResult, error) {
	if err := n.build(); err != nil {
		return nativeResult{}, err
	}
	b, _ := json.Marshal(map[string]interface{}{"vars": vars, "tier": tier})
	f, err := os.CreateTemp(n.dir, "vars*.json")
	if err != nil {
		return nativeResult{}, err
	}
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	// the memory is limited, an endless loop may allocate
	c := exec.CommandContext(ctx, "bash", "-c", "ulimit -v 12000000; exec \"$@\"", "native", n.bin, h, f.Name())
	c.Dir = n.dir
	c.Env = append(os.Environ(), "TMPDIR="+n.dir)
	var o bytes.Buffer
	c.Stdout, c.Stderr = &o, &o
	err = c.Run()
	r := nativeResult{out: o.String()}
	if ctx.Err() != nil {
		r.timeout = true
	}
	if err != nil {
		r.code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			r.code = ee.ExitCode()
		}
	}
	for _, l := range strings.Split(r.out, "\n") {
		if strings.HasPrefix(l, "ND-OBS ") {
			r.obs = append(r.obs, strings.TrimPrefix(l, "ND-OBS "))
		}
		if strings.HasPrefix(l, "ND-VIOLATION ") {
			r.label = strings.TrimPrefix(l, "ND-VIOLATION ")
		}
	}
	return r, nil
}

// confirm replays a counterexample natively; it says whether the compiled code
// shows the violation
func (n *native) confirm(v *Violation, tries int) (bool, string) {
	last := ""
	for i := 0; i < tries; i++ {
		r, err := n.run(v.Harness, v.Vars, v.Tier, 10*time.Second)
		if err != nil {
			return false, err.Error()
		}
		switch v.Kind {
		case "assert":
			if r.code == 7 && r.label == v.Label {
				return true, "reproduced: " + r.label
			}
			if r.code == 2 && strings.Contains(r.out, "panic:") {
				return true, "reproduced (the compiled code panics): " + firstPanic(r.out)
			}
		case "panic", "fatal":
			if r.code == 2 && (strings.Contains(r.out, "panic:") || strings.Contains(r.out, "fatal error:")) {
				return true, "reproduced: " + firstPanic(r.out)
			}
		case "deadlock":
			if r.timeout || r.code == 2 && strings.Contains(r.out, "all goroutines are asleep") {
				return true, "reproduced: the compiled code hangs"
			}
		case "hang":
			if r.timeout || r.code == 2 && strings.Contains(r.out, "out of memory") {
				return true, "reproduced: the compiled code doesn't come to an end"
			}
		case "race":
			return false, "data races are decided by the happens-before relation, not replayed"
		}
		last = fmt.Sprintf("exit %d", r.code)
		if r.timeout {
			last = "timeout"
		}
		if r.label != "" {
			last += " violation " + r.label
		}
		if r.code == 8 {
			last += " (assumption failed)"
		}
	}
	return false, "not reproduced natively: " + last
}

func firstPanic(out string) string {
	for _, l := range strings.Split(out, "\n") {
		if strings.Contains(l, "panic:") || strings.Contains(l, "fatal error:") {
			if len(l) > 200 {
				l = l[:200]
			}
			return l
		}
	}
	return ""
}

type pathSample struct {
	vars map[string]uint64
	obs  []string
	text string
	many bool
}

// sampleOf evaluates a finished path under its model
func (m *Machine) sampleOf() pathSample {
	s := pathSample{vars: map[string]uint64{}, text: m.sample(), many: len(m.threads) > 1}
	for _, v := range m.tb.vars {
		s.vars[v.name] = m.model.Eval(v)
	}
	for _, c := range m.choices {
		s.vars[c.name] = c.v
	}
	for _, o := range m.obs {
		b := make([]byte, len(o.cells))
		for i, c := range o.cells {
			b[i] = byte(m.model.Eval(c))
		}
		s.obs = append(s.obs, o.label+" "+hex.EncodeToString(b))
	}
	return s
}

type obsRec struct {
	label string
	cells []*Term
}

type harnessReport struct {
	Name        string           `json:"harness"`
	Bounds      string           `json:"bounds,omitempty"`
	Complete    bool             `json:"exploration_complete"`
	Paths       int64            `json:"paths"`
	Done        int              `json:"paths_run_to_the_end"`
	Pruned      int              `json:"paths_pruned_by_assumptions"`
	Redundant   int              `json:"schedules_pruned_as_equivalent"`
	Unsupported int              `json:"paths_not_encodable"`
	Budget      int              `json:"paths_over_the_step_budget"`
	Messages    map[string]int   `json:"not_encodable,omitempty"`
	Steps       int64            `json:"instructions"`
	MaxSteps    int64            `json:"longest_path_instructions"`
	Threads     int              `json:"max_goroutines"`
	SchedDec    int64            `json:"scheduling_decisions"`
	Queries     int64            `json:"solver_queries"`
	Sat         int64            `json:"sat"`
	Unsat       int64            `json:"unsat"`
	Unknown     int64            `json:"unknown"`
	SolverS     float64          `json:"solver_s"`
	AssertsQ    int64            `json:"assertions_sent_to_the_solver"`
	Discharged  int64            `json:"assertions_proved_by_the_solver"`
	Folded      int64            `json:"assertions_decided_by_simplification"`
	Asserts     map[string]int64 `json:"assertions"`
	Covers      map[string]int64 `json:"reached"`
	Missing     []string         `json:"not_reached,omitempty"`
	Races       map[string]int   `json:"data_races_seen,omitempty"`
	Validated   int              `json:"traces_validated"`
	Mismatch    []string         `json:"trace_mismatches,omitempty"`
	WallS       float64          `json:"wall_s"`
	Samples     []string         `json:"samples,omitempty"`
	Violations  []string         `json:"violations,omitempty"`
}

// coverLabels lists the reachability witnesses a harness (and the harness
// package functions it calls) declares
func coverLabels(fn *ssa.Function) []string {
	seen := map[*ssa.Function]bool{}
	labels := map[string]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function))
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && g.Pkg != nil && g.Pkg == fn.Pkg {
						visit(g)
					}
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cal := c.Common().StaticCallee()
				if cal == nil {
					continue
				}
				if cal.String() == "verifh/nd.Cover" {
					if k, ok := c.Common().Args[0].(*ssa.Const); ok {
						labels[constValue(k).(string)] = true
					}
				}
			}
		}
	}
	visit(fn)
	var out []string
	for l := range labels {
		out = append(out, l)
	}
	sort.Strings(out)
	return out
}

// doc returns the doc comment of the harness without directives
func harnessDoc(fn *ssa.Function) string {
	d := docOf(fn)
	var ls []string
	for _, l := range d {
		if strings.HasPrefix(l, "//verif:") {
			continue
		}
		ls = append(ls, strings.TrimSpace(strings.TrimPrefix(l, "//")))
	}
	return strings.Join(ls, " ")
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	tierS := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	budget := fs.Int("budget", 0, "total seconds")
	only := fs.String("only", "", "substring of harness names")
	verbose := fs.Bool("v", false, "verbose")
	fs.Parse(args)
	if fs.NArg() < 2 {
		fmt.Fprintln(os.Stderr, "usage: check PROPERTY PACKAGE")
		os.Exit(2)
	}
	prop, pkgPath := fs.Arg(0), fs.Arg(1)
	t0 := time.Now()
	tier := 0
	tierName := "quick"
	if *tierS == "thorough" {
		tier, tierName = 1, "thorough"
	}
	if *budget == 0 {
		*budget = 200
		if tier == 1 {
			*budget = 780
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	root := verifRoot()
	kf, err := loadKnown(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	p, err := loadProgram(".", []string{pkgPath})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fns := harnesses(p.byPath[pkgPath])
	nat := newNative(pkgPath, fns)
	defer nat.close()
	var reps []harnessReport
	var vio []*Violation
	var knownHits []string
	var unconfirmed []string
	funcs := map[string]bool{}
	deadline := t0.Add(time.Duration(*budget) * time.Second)
	left := len(fns)
	anyViolation := false
	for _, f := range fns {
		share := time.Until(deadline)
		if left > 1 {
			// leave a fair share to the remaining harnesses, but allow a
			// harness up to half of what is left
			share = share / 2
		}
		left--
		if *only != "" && !strings.Contains(f.Name(), *only) {
			continue
		}
		ex := newExplorer(p, f)
		ex.tier = tier
		if s := os.Getenv("VERIF_SOLVER"); s != "" {
			ex.solver = s
		}
		lim := ex.opts.SecQuick
		if tier == 1 {
			lim = ex.opts.SecFull
		}
		if lim > 0 && share > time.Duration(lim)*time.Second {
			share = time.Duration(lim) * time.Second
		}
		if share < time.Second {
			share = time.Second
		}
		ex.run(share)
		if *verbose {
			ex.print(false)
		}
		r := harnessReport{
			Name: f.Name(), Bounds: harnessDoc(f), Complete: ex.complete && ex.outcomes[outUnsupported] == 0 && ex.outcomes[outBudget] == 0 && ex.unknown == 0,
			Paths: ex.paths, Done: ex.outcomes[outDone], Pruned: ex.outcomes[outPruned], Redundant: ex.outcomes[outRedundant],
			Unsupported: ex.outcomes[outUnsupported], Budget: ex.outcomes[outBudget], Messages: ex.msgs,
			Steps: ex.totalSteps, MaxSteps: ex.maxSteps, Threads: ex.maxThreads, SchedDec: ex.schedDec,
			Queries: ex.queries, Sat: ex.sat, Unsat: ex.unsat, Unknown: ex.unkQ, SolverS: ex.solverTime.Seconds(),
			AssertsQ: ex.stats.asserts, Discharged: ex.stats.discharged, Folded: ex.stats.folded,
			Asserts: ex.asserts, Covers: ex.covers, Races: ex.races, WallS: ex.wall.Seconds(),
		}
		for _, l := range coverLabels(f) {
			if ex.covers[l] == 0 {
				r.Missing = append(r.Missing, l)
			}
		}
		for fi := range ex.fns {
			funcs[fi.name] = true
		}
		// pass sampled paths through the compiled code
		for _, s := range ex.samples {
			r.Samples = append(r.Samples, f.Name()+": "+s.text)
			if ex.opts.NoNative || len(ex.violations) > 0 {
				continue
			}
			res, err := nat.run(f.Name(), s.vars, tier, 10*time.Second)
			switch {
			case err != nil:
				r.Mismatch = append(r.Mismatch, err.Error())
			case res.timeout || res.code != 0:
				r.Mismatch = append(r.Mismatch, fmt.Sprintf("exit %d %s: %s", res.code, res.label, s.text))
			case !s.many && strings.Join(res.obs, "\n") != strings.Join(s.obs, "\n"):
				r.Mismatch = append(r.Mismatch, fmt.Sprintf("observed %v, encoding says %v", res.obs, s.obs))
			default:
				r.Validated++
			}
		}
		var ks []string
		for k := range ex.violations {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			v := ex.violations[k]
			v.Property = prop
			if ex.opts.NoNative {
				v.Native = "not attempted (the environment of this harness is modelled)"
			} else {
				tries := 1
				if v.MultiSched {
					tries = 3
				}
				ok, how := nat.confirm(v, tries)
				v.Native = how
				if !ok && (!v.MultiSched || v.Kind == "hang") {
					// the encoding and the compiled code disagree: the
					// encoding is wrong, nothing is reported
					unconfirmed = append(unconfirmed, fmt.Sprintf("%s %s %s: %s", v.Harness, v.Kind, v.Label, how))
					if *verbose {
						fmt.Println("   unconfirmed:", unconfirmed[len(unconfirmed)-1])
					}
					continue
				}
			}
			hit := false
			for _, kn := range kf {
				if kn.matches(prop, v) {
					hit = true
					knownHits = append(knownHits, kn.What)
					break
				}
			}
			r.Violations = append(r.Violations, fmt.Sprintf("%s: %s %s", v.Kind, v.Label, v.Msg))
			if hit {
				continue
			}
			anyViolation = true
			vio = append(vio, v)
		}
		reps = append(reps, r)
		if anyViolation && tier == 0 {
			break
		}
	}
	// known findings, each once
	seen := map[string]bool{}
	for _, k := range knownHits {
		if !seen[k] {
			seen[k] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
		}
	}
	evDir := filepath.Join(root, "evidence")
	os.MkdirAll(filepath.Join(evDir, "replays"), 0o755)
	old, _ := filepath.Glob(filepath.Join(evDir, "replays", prop+"-*.json"))
	for _, o := range old {
		os.Remove(o)
	}
	var replays []string
	for i, v := range vio {
		name := filepath.Join("evidence", "replays", fmt.Sprintf("%s-%d.json", prop, i+1))
		b, _ := json.MarshalIndent(struct {
			Package string `json:"package"`
			*Violation
		}{pkgPath, v}, "", " ")
		os.WriteFile(filepath.Join(root, name), b, 0o644)
		replays = append(replays, name)
	}
	writeEvidence(filepath.Join(evDir, prop+".json"), prop, tierName, seed, t0, p, pkgPath, reps, vio, knownHits, unconfirmed, funcs)
	for i, v := range vio {
		fmt.Printf("%s: %s (%s) %s\n", v.Harness, v.Label, v.Kind, v.Msg)
		fmt.Printf("  %s\n", v.Native)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replays[i])
	}
	if len(vio) > 0 {
		nat.close()
		os.Exit(1)
	}
	var q, paths int64
	allc := true
	for _, r := range reps {
		q += r.Queries
		paths += r.Paths
		allc = allc && r.Complete
	}
	fmt.Printf("OK property=%s harnesses=%d paths=%d queries=%d complete=%v wall=%.1fs\n", prop, len(reps), paths, q, allc, time.Since(t0).Seconds())
}

func writeEvidence(path, prop, tier string, seed int, t0 time.Time, p *Program, pkg string, reps []harnessReport, vio []*Violation, knownHits, unconfirmed []string, funcs map[string]bool) {
	var states, trans, valid, q, dis, fold int64
	var st float64
	var samples []string
	complete := true
	var reduced []string
	for _, r := range reps {
		states += r.Paths
		trans += r.Steps
		valid += int64(r.Validated)
		q += r.Queries
		dis += r.Discharged
		fold += r.Folded
		st += r.SolverS
		if !r.Complete {
			complete = false
			reduced = append(reduced, fmt.Sprintf("%s: exploration stopped early or some paths were not encodable", r.Name))
		}
		for i, s := range r.Samples {
			if i < 1 {
				samples = append(samples, s)
			}
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	if samples == nil {
		samples = []string{}
	}
	cov := map[string]interface{}{
		"states":                        states,
		"transitions":                   trans,
		"traces_validated_against_impl": valid,
		"samples":                       samples,
		"explanation": "states: symbolic paths (each a set of inputs and one schedule) executed over the SSA form of the code in /repo; " +
			"transitions: SSA instructions executed on them; every branch feasibility and every assertion that does not fold is a solver query; " +
			"traces_validated_against_impl: sampled paths whose solver assignment was run through the compiled code with the same observations",
		"functions_encoded":                    fl,
		"solver_queries":                       q,
		"assertions_proved_by_the_solver":      dis,
		"assertions_decided_by_simplification": fold,
		"solver_s":                             st,
		"exploration_complete":                 complete,
		"reduced_bounds":                       reduced,
		"harnesses":                            reps,
		"known_findings":                       knownHits,
		"unconfirmed_counterexamples":          unconfirmed,
	}
	var vs []string
	for _, v := range vio {
		vs = append(vs, fmt.Sprintf("%s %s %s %s", v.Harness, v.Kind, v.Label, v.Msg))
	}
	if vs == nil {
		vs = []string{}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"bounds as stated per harness; nothing is claimed outside them",
			"the engine's model of Go (SSA semantics, sequentially consistent memory, channels, locks, timers) and its stubs of standard library packages (see DESIGN.md)",
			"z3's answers",
		},
		"wall_s":     time.Since(t0).Seconds(),
		"violations": vs,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// cmdReplay re-runs a recorded counterexample
func cmdReplay(args []string) {
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "usage: replay FILE")
		os.Exit(2)
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		b, err = os.ReadFile(filepath.Join(verifRoot(), args[0]))
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var f struct {
		Package string `json:"package"`
		Violation
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	p, err := loadProgram(".", []string{f.Package})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	for _, h := range harnesses(p.byPath[f.Package]) {
		if h.Name() != f.Harness {
			continue
		}
		fmt.Printf("property %s, harness %s: %s\n%s %s %s\n", f.Property, f.Harness, harnessDoc(h), f.Kind, f.Label, f.Msg)
		fmt.Println("assignment:")
		for _, k := range sortedKeys(f.Vars) {
			fmt.Printf("  %s = %d\n", k, f.Vars[k])
		}
		for _, s := range f.Trace {
			fmt.Println("  step", s)
		}
		for _, s := range f.Stack {
			fmt.Println("  at", s)
		}
		// the recorded path in the encoding of the current tree
		ex := newExplorer(p, h)
		ex.tier = f.Tier
		ex.runDecisions(&f.Violation)
		ok := false
		for _, v := range ex.violations {
			if v.Kind == f.Kind && v.Label == f.Label {
				ok = true
			}
		}
		fmt.Println("encoding: violation reproduced:", ok)
		nat := newNative(f.Package, harnesses(p.byPath[f.Package]))
		defer nat.close()
		if !ex.opts.NoNative {
			nok, how := nat.confirm(&f.Violation, 5)
			fmt.Println("compiled code:", how)
			ok = ok || nok
		}
		if ok {
			nat.close()
			os.Exit(1)
		}
		return
	}
	fmt.Fprintln(os.Stderr, "no such harness")
	os.Exit(2)
}
