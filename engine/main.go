package main

import (
	"runtime/debug"

	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	debug.SetGCPercent(400) // paths leave much garbage
	debug.SetMemoryLimit(8 << 30)

	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: engine run|check|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

// harnesses returns the harness functions of a package, by name
func harnesses(p *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	for n, mb := range p.Members {
		if f, ok := mb.(*ssa.Function); ok && strings.HasPrefix(n, "H_") {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	sec := fs.Int("t", 60, "seconds per harness")
	tier := fs.Int("tier", 0, "0 quick 1 thorough")
	nw := fs.Int("j", 0, "workers")
	dbg := fs.Bool("debug", false, "debug")
	sol := fs.String("solver", "z3-new", "solver")
	full := fs.Bool("v", false, "print whole violations")
	maxv := fs.Int("maxviol", 12, "stop after this many distinct violations")
	fs.Parse(args)
	a := fs.Args()
	p, err := loadProgram(".", []string{a[0]})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	pk := p.byPath[a[0]]
	for _, f := range harnesses(pk) {
		if len(a) > 1 {
			ok := false
			for _, x := range a[1:] {
				ok = ok || strings.Contains(f.Name(), x)
			}
			if !ok {
				continue
			}
		}
		ex := newExplorer(p, f)
		ex.tier = *tier
		ex.debug = *dbg
		ex.solver = *sol
		ex.maxViol = *maxv
		if *nw > 0 {
			ex.nw = *nw
		}
		ex.run(time.Duration(*sec) * time.Second)
		ex.print(*full)
	}
}

func compact(vars map[string]uint64) string {
	out := ""
	n := 0
	for _, k := range sortedKeys(vars) {
		if vars[k] == 0 {
			continue
		}
		if n++; n > 40 {
			out += "..."
			break
		}
		out += fmt.Sprintf("%s=%d ", k, vars[k])
	}
	return out
}

func (ex *Explorer) print(full bool) {
	fmt.Printf("== %s: complete=%v rounds=%d paths=%d done=%d pruned=%d redundant=%d unsupported=%d budget=%d fatal=%d wall=%.2fs\n",
		ex.harness, ex.complete, ex.rounds, ex.paths, ex.outcomes[outDone], ex.outcomes[outPruned], ex.outcomes[outRedundant],
		ex.outcomes[outUnsupported], ex.outcomes[outBudget], ex.outcomes[outFatal], ex.wall.Seconds())
	fmt.Printf("   queries=%d sat=%d unsat=%d unknown=%d solver=%.2fs asserts: solver=%d discharged=%d folded=%d steps=%d maxsteps=%d threads=%d sched=%d fns=%d\n",
		ex.queries, ex.sat, ex.unsat, ex.unkQ, ex.solverTime.Seconds(), ex.stats.asserts, ex.stats.discharged, ex.stats.folded, ex.totalSteps, ex.maxSteps, ex.maxThreads, ex.schedDec, len(ex.fns))
	var ks []string
	for k, n := range ex.asserts {
		ks = append(ks, fmt.Sprintf("%s=%d", k, n))
	}
	sort.Strings(ks)
	fmt.Printf("   asserts %s\n", strings.Join(ks, ", "))
	ks = nil
	for k, n := range ex.covers {
		ks = append(ks, fmt.Sprintf("%s=%d", k, n))
	}
	sort.Strings(ks)
	if len(ks) > 0 {
		fmt.Printf("   covers %s\n", strings.Join(ks, ", "))
	}
	for k, n := range ex.msgs {
		fmt.Printf("   ! %dx %s\n", n, k)
	}
	for k, n := range ex.races {
		fmt.Printf("   race %dx %s\n", n, k)
	}
	for k, v := range ex.violations {
		fmt.Printf("   VIOLATED %s (%dx) %s\n", k, v.count, v.Msg)
		if full {
			b, _ := json.MarshalIndent(v, "      ", " ")
			fmt.Println(string(b))
		} else {
			for i, s := range v.Stack {
				if i < 4 {
					fmt.Printf("        %s\n", s)
				}
			}
			fmt.Printf("        vars %v notes %v\n", compact(v.Vars), v.Notes)
		}
	}
}
