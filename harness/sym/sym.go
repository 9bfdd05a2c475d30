// Package sym is the interface between the harnesses and the symbolic engine.
// Under the engine these functions are intercepted; compiled natively they
// replay one concrete assignment.
package sym

import (
	"os"
	"strings"
	"sync"
	"time"
)

// Env is the native replay environment.
type Env struct {
	Params map[string]string
	Values []uint64
	Pos    int
	Obs    []string

	Harness string
	// Fresh counts the calls of Fresh; call number Want is the one to execute.
	Fresh, Want int
}

// FreshDone carries the result of the wanted call of Fresh.
type FreshDone struct{ Data []byte }

// InFresh executes a call of Fresh in a new process. It is set by the replayer.
var InFresh func(call int) []byte

var E = &Env{}

// Cut ends a replay whose assumptions do not hold; Failure is a violated assertion.
type Cut struct{}
type Done struct{}
type Failure struct{ Msg string }

func next() uint64 {
	if E.Pos >= len(E.Values) {
		E.Pos++
		return 0
	}
	v := E.Values[E.Pos]
	E.Pos++
	return v
}

// Symbolic reports whether the engine runs the harness.
func Symbolic() bool { return false }

// Byte returns an arbitrary byte.
func Byte() byte { return byte(next()) }

// Bytes returns n arbitrary bytes.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next())
	}
	return b
}

// String returns a string of n arbitrary bytes.
func String(n int) string { return string(Bytes(n)) }

// Bool returns an arbitrary boolean.
func Bool() bool { return next() != 0 }

// Word returns an arbitrary 64 bit value.
func Word() uint64 { return next() }

// Choose returns an arbitrary value in [0,n).
func Choose(n int) int {
	if n <= 1 {
		next()
		return 0
	}
	return int(next() % uint64(n))
}

// Assume restricts the explored inputs.
func Assume(b bool) {
	if !b {
		panic(Cut{})
	}
}

// AssumeIn restricts a byte to a set.
func AssumeIn(b byte, set string) {
	if strings.IndexByte(set, b) < 0 {
		panic(Cut{})
	}
}

// Assert states the property.
func Assert(b bool, msg string) {
	if !b {
		panic(Failure{msg})
	}
}

// Fail is Assert(false, msg).
func Fail(msg string) { panic(Failure{msg}) }

// EndPath ends the path without a verdict.
func EndPath() { panic(Done{}) }

// Reach is a reachability witness.
func Reach(string) {}

// Param returns a job parameter.
func Param(k string) string { return E.Params[k] }

// Observe records a value that has to be the same in the engine and in the real build.
func Observe(k, v string) { E.Obs = append(E.Obs, k+"="+v) }

// MapOrder lets the engine explore every map iteration order.
func MapOrder(bool) {}

// Concrete enumerates the values of a symbolic string.
func Concrete(s string) string { return s }

// EqBytes compares without forking per byte.
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// Par runs the functions concurrently. The engine explores the schedules with
// at most n preemptions.
func Par(n int, fs ...func()) {
	var wg sync.WaitGroup
	start := make(chan bool)
	errs := make([]interface{}, len(fs))
	for i, f := range fs {
		i, f := i, f
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { errs[i] = recover() }()
			<-start
			f()
		}()
	}
	close(start)
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			panic(e)
		}
	}
}

// More reports whether run i of a concurrent harness is to be done. The engine
// runs it once, as it explores the schedules itself.
func More(i int) bool {
	if i == 0 {
		began = time.Now()
	}
	if os.Getenv("REPLAY_FRESH") != "" {
		return time.Since(began) < 8*time.Second
	}
	return i < 3
}

var began time.Time

// Fresh is the result of f in a process in which nothing was executed before.
// For the engine the calls have to come before everything else that matters.
func Fresh(f func() []byte) []byte {
	E.Fresh++
	if E.Want > 0 {
		if E.Fresh == E.Want {
			panic(FreshDone{f()})
		}
		return nil
	}
	if os.Getenv("REPLAY_FRESH") == "" || InFresh == nil {
		b := f()
		used = true
		return b
	}
	return InFresh(E.Fresh)
}

// Runs counts the runs in this process.
var Runs int

// First reports whether nothing was run in this process before. For the engine
// every path is a new process.
func First() bool { return Runs <= 1 && !used }

var used bool

// RuntimeError is the engine's run-time error.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

// FmtState is the engine's fmt.State. The engine sets the fields by position.
type FmtState struct {
	Buf                             []byte
	Plus, Minus, Sharp, Space, Zero bool
	Wid, Prec                       int
	HasWid, HasPrec                 bool
}

func (s *FmtState) Write(b []byte) (int, error) {
	s.Buf = append(s.Buf, b...)
	return len(b), nil
}
func (s *FmtState) Width() (int, bool)     { return s.Wid, s.HasWid }
func (s *FmtState) Precision() (int, bool) { return s.Prec, s.HasPrec }
func (s *FmtState) Flag(c int) bool {
	switch c {
	case '+':
		return s.Plus
	case '-':
		return s.Minus
	case '#':
		return s.Sharp
	case ' ':
		return s.Space
	case '0':
		return s.Zero
	}
	return false
}
