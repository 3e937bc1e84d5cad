// Package nd is the harness API. The solver engine intercepts every function
// of this package; the bodies below are the native implementations used when
// a counterexample is replayed against the compiled code: every symbolic
// value takes the value the solver chose.
package nd

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/signal"
	"runtime"
	"sync"
	"syscall"
	"time"

	crand "crypto/rand"
)

var (
	mu     sync.Mutex
	vars   = map[string]uint64{}
	count  = map[string]int{}
	tier   int
	active bool
)

// exit codes of a native replay
const (
	ExitOK        = 0
	ExitViolation = 7
	ExitAssume    = 8
)

var randLog []byte

type randReader struct{}

func (randReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(val("rand"))
		randLog = append(randLog, p[i])
	}
	return len(p), nil
}

// Load reads the assignment to replay
func Load(path string) error {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		return err
	}
	var f struct {
		Vars map[string]uint64 `json:"vars"`
		Tier int               `json:"tier"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		return err
	}
	vars, tier = f.Vars, f.Tier
	active = true
	crand.Reader = randReader{}
	return nil
}

func val(label string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	k := count[label]
	count[label] = k + 1
	return vars[fmt.Sprintf("%s#%d", label, k)]
}

// Byte is an arbitrary byte
func Byte(label string) byte { return byte(val(label)) }

// Bool is an arbitrary boolean
func Bool(label string) bool { return val(label) != 0 }

// Uint16 is an arbitrary 16-bit value
func Uint16(label string) uint16 { return uint16(val(label)) }

// Uint32 is an arbitrary 32-bit value
func Uint32(label string) uint32 { return uint32(val(label)) }

// Uint64 is an arbitrary 64-bit value
func Uint64(label string) uint64 { return val(label) }

// Int is an arbitrary integer in lo..hi
func Int(label string, lo, hi int) int {
	v := int(val(label))
	Assume(lo <= v && v <= hi)
	return v
}

// Bytes is a slice of n arbitrary bytes
func Bytes(label string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(val(label))
	}
	return b
}

// BytesUpTo is a slice of 0..max arbitrary bytes (symbolic length)
func BytesUpTo(label string, max int) []byte {
	n := int(val(label + ".len"))
	Assume(n <= max)
	b := make([]byte, max)
	for i := range b {
		b[i] = byte(val(label))
	}
	return b[:n:n]
}

// String is a string of n arbitrary bytes
func String(label string, n int) string { return string(Bytes(label, n)) }

// Choice is an arbitrary value in 0..n-1, explored one by one
func Choice(label string, n int) int { return int(val("choice:" + label)) }

// Concretize explores the values of v one by one
func Concretize(v int) int { return v }

// Assume restricts the explored values
func Assume(c bool) {
	if !c {
		fmt.Println("ND-ASSUME-FAILED")
		os.Exit(ExitAssume)
	}
}

// Assert states the property
func Assert(c bool, label string) {
	if !c {
		fmt.Printf("ND-VIOLATION %s\n", label)
		os.Exit(ExitViolation)
	}
}

// Fail is an assertion that never holds
func Fail(label string) { Assert(false, label) }

// Rand returns the bytes drawn from crypto/rand since the last call
func Rand() []byte {
	r := randLog
	randLog = nil
	return r
}

// Cover marks a point that has to be reachable
func Cover(label string) {}

// Note adds a remark to counterexamples
func Note(s string) { fmt.Println("note:", s) }

// Quiesce waits until no other goroutine can make a step
func Quiesce() {
	runtime.Gosched()
	time.Sleep(60 * time.Millisecond)
}

// Calm fixes the schedule (each goroutine runs until it has to wait) or explores
// all again. It's for preparations and for histories whose steps don't overlap
func Calm(on bool) {}

// Live is the number of other goroutines that have not ended
func Live() int { return runtime.NumGoroutine() - 1 }

// Point is a visible operation on a named object
func Point(label string) { runtime.Gosched() }

// Tier is 0 for the quick check and 1 for the thorough one
func Tier() int { return tier }

// Symbolic tells whether the harness is executed symbolically
func Symbolic() bool { return false }

// And without short-circuit (no path fork)
func And(a, b bool) bool { return a && b }

// Or without short-circuit
func Or(a, b bool) bool { return a || b }

// Not negates
func Not(a bool) bool { return !a }

// Implies is implication without short-circuit
func Implies(a, b bool) bool { return !a || b }

// EqBytes compares without forking
func EqBytes(a, b []byte) bool { return bytes.Equal(a, b) }

// EqString compares without forking
func EqString(a, b string) bool { return a == b }

// IteInt selects without forking
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// TempDir is a directory the code under test may write to
func TempDir() string {
	d, err := ioutil.TempDir("", "nd")
	if err != nil {
		panic(err)
	}
	return d
}

// FSPaths lists the paths the modelled file system was asked to touch
func FSPaths() []string { return nil }

// FSFail makes writing files fail after a few bytes
func FSFail(v bool) {
	signal.Ignore(syscall.SIGXFSZ)
	var l syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l)
	l.Cur = l.Max
	if v {
		l.Cur = 8
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		panic(err)
	}
}

// Observe records a value: the encoding and the compiled code have to agree
func Observe(label string, b []byte) {
	mu.Lock()
	fmt.Printf("ND-OBS %s %x\n", label, b)
	mu.Unlock()
}

// ObserveInt records the low 16 bits of an integer
func ObserveInt(label string, v int) {
	Observe(label, []byte{byte(v), byte(v >> 8)})
}
