package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Solver is one persistent SMT solver process
type Solver struct {
	name    string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	timeout time.Duration
	done    map[*Term]bool // defined in the current scope
	nPend   int            // number of pc terms already asserted
	inScope bool
	log     *strings.Builder

	Queries, Sat, Unsat, Unknown int64
	Time                         time.Duration
}

func solverArgs(name string) (string, []string) {
	switch name {
	case "cvc5":
		return "cvc5", []string{"--incremental", "--lang=smt2", "--produce-models"}
	default:
		return name, []string{"-in", "-smt2"}
	}
}

func NewSolver(name string, timeout time.Duration) (*Solver, error) {
	s := &Solver{name: name, timeout: timeout}
	if err := s.start(); err != nil {
		return nil, err
	}
	return s, nil
}

func (s *Solver) start() error {
	bin, args := solverArgs(s.name)
	if s.name == "cvc5" {
		args = append(args, fmt.Sprintf("--tlimit-per=%d", s.timeout.Milliseconds()))
	}
	s.cmd = exec.Command(bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	if s.name == "cvc5" {
		s.send("(set-logic QF_BV)\n")
	} else {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout.Milliseconds()))
	}
	s.inScope = false
	return nil
}

func (s *Solver) send(str string) {
	io.WriteString(s.in, str)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

// Begin starts a fresh scope for a new path
func (s *Solver) Begin() {
	if s.inScope {
		s.send("(pop 1)\n")
	}
	s.send("(push 1)\n")
	s.inScope = true
	s.done = make(map[*Term]bool)
	s.nPend = 0
}

type Result int

const (
	RUnsat Result = iota
	RSat
	RUnknown
)

var modelVer int64

// Check decides satisfiability of pc /\ extra (extra may be nil) and returns a
// model when sat.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (Result, *Model) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	var b strings.Builder
	for ; s.nPend < len(pc); s.nPend++ {
		t := pc[s.nPend]
		define(t, s.done, &b)
		fmt.Fprintf(&b, "(assert %s)\n", ref(t))
	}
	pushed := false
	if extra != nil {
		define(extra, s.done, &b)
		b.WriteString("(push 1)\n")
		fmt.Fprintf(&b, "(assert %s)\n", ref(extra))
		pushed = true
	}
	// all variables must be declared at scope level before the inner push; they
	// are, because define() ran before it. Variables that occur nowhere keep 0.
	b.WriteString("(check-sat)\n")
	s.send(b.String())
	s.Queries++
	line, err := s.readLine()
	res := RUnknown
	if err == nil && line == "unknown" {
		// retry without incrementality
		if pushed {
			s.send("(pop 1)\n")
			pushed = false
		}
		var mod *Model
		res, mod = s.oneShot(pc, extra, vars)
		switch res {
		case RSat:
			s.Sat++
		case RUnsat:
			s.Unsat++
		default:
			s.Unknown++
		}
		return res, mod
	}
	if err == nil {
		switch line {
		case "sat":
			res = RSat
		case "unsat":
			res = RUnsat
		}
	}
	if err != nil || strings.HasPrefix(line, "(error") {
		// restart the solver; result stays unknown
		s.Unknown++
		s.cmd.Process.Kill()
		s.cmd.Wait()
		if e := s.start(); e != nil {
			panic(e)
		}
		s.Begin()
		return RUnknown, nil
	}
	var m *Model
	if res == RSat {
		s.Sat++
		m = &Model{vals: map[*Term]uint64{}, ver: atomic.AddInt64(&modelVer, 1)}
		var dv []*Term
		for _, v := range vars {
			if s.done[v] {
				dv = append(dv, v)
			}
		}
		if len(dv) > 0 {
			var g strings.Builder
			g.WriteString("(get-value (")
			for _, v := range dv {
				g.WriteString(ref(v))
				g.WriteByte(' ')
			}
			g.WriteString("))\n")
			s.send(g.String())
			txt, err := s.readSexp()
			if err != nil {
				panic(err)
			}
			parseValues(txt, dv, m)
		}
	} else if res == RUnsat {
		s.Unsat++
	} else {
		s.Unknown++
	}
	if pushed {
		s.send("(pop 1)\n")
	}
	return res, m
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var b strings.Builder
	depth := 0
	inBar := false
	started := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		b.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
			if started && depth == 0 {
				return b.String(), nil
			}
		}
	}
}

func parseValues(txt string, vars []*Term, m *Model) {
	// ((|x| #x00) (|y| true) ...), in order
	i := 0
	for _, v := range vars {
		k := "|" + v.name + "|"
		j := strings.Index(txt[i:], k)
		var skip int
		if j < 0 {
			// solvers may print simple symbols unquoted
			k = "(" + v.name + " "
			j = strings.Index(txt[i:], k)
			if j < 0 {
				panic("model parse: " + v.name + " in " + txt)
			}
			skip = len(k) - 1
		} else {
			skip = len(k)
		}
		p := i + j + skip
		for txt[p] == ' ' || txt[p] == '\n' || txt[p] == '\t' {
			p++
		}
		var val uint64
		switch {
		case strings.HasPrefix(txt[p:], "true"):
			val = 1
		case strings.HasPrefix(txt[p:], "false"):
			val = 0
		case strings.HasPrefix(txt[p:], "#x"):
			e := p + 2
			for e < len(txt) && isHex(txt[e]) {
				e++
			}
			val, _ = strconv.ParseUint(txt[p+2:e], 16, 64)
		case strings.HasPrefix(txt[p:], "#b"):
			e := p + 2
			for e < len(txt) && (txt[e] == '0' || txt[e] == '1') {
				e++
			}
			val, _ = strconv.ParseUint(txt[p+2:e], 2, 64)
		case strings.HasPrefix(txt[p:], "(_ bv"):
			e := p + 5
			for txt[e] >= '0' && txt[e] <= '9' {
				e++
			}
			val, _ = strconv.ParseUint(txt[p+5:e], 10, 64)
		default:
			panic("model parse value: " + txt[p:])
		}
		m.vals[v] = val
		i = p
	}
}

func isHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

// oneShot decides the query in fresh solver processes
func (s *Solver) oneShot(pc []*Term, extra *Term, vars []*Term) (Result, *Model) {
	var d strings.Builder
	d.WriteString("(set-option :produce-models true)\n(set-logic QF_BV)\n")
	dn := map[*Term]bool{}
	for _, t := range pc {
		define(t, dn, &d)
		fmt.Fprintf(&d, "(assert %s)\n", ref(t))
	}
	if extra != nil {
		define(extra, dn, &d)
		fmt.Fprintf(&d, "(assert %s)\n", ref(extra))
	}
	var dv []*Term
	for _, v := range vars {
		if dn[v] {
			dv = append(dv, v)
		}
	}
	d.WriteString("(check-sat)\n")
	if len(dv) > 0 {
		d.WriteString("(get-value (")
		for _, v := range dv {
			d.WriteString(ref(v))
			d.WriteByte(' ')
		}
		d.WriteString("))\n")
	}
	for _, c := range [][]string{{"z3-new", "-in", "-smt2", "-T:20"}, {"cvc5", "--lang=smt2", "--tlimit=20000"}} {
		cmd := exec.Command(c[0], c[1:]...)
		cmd.Stdin = strings.NewReader(d.String())
		out, _ := cmd.Output()
		txt := string(out)
		if strings.HasPrefix(txt, "unsat") {
			return RUnsat, nil
		}
		if strings.HasPrefix(txt, "sat") {
			m := &Model{vals: map[*Term]uint64{}, ver: atomic.AddInt64(&modelVer, 1)}
			if len(dv) > 0 {
				parseValues(txt[3:], dv, m)
			}
			return RSat, m
		}
	}
	return RUnknown, nil
}
