// Package sym is the interface between harnesses and the symbolic executor.
//
// The executor intercepts every function here. The bodies below are used when
// a harness is compiled natively, to replay a counterexample: values are then
// read, per name and in order, from the replay file.
package sym

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strings"
	"time"
)

type input struct {
	Name string `json:"name"`
	Val  uint64 `json:"val"`
}

type replayFile struct {
	Inputs []input        `json:"inputs"`
	Params map[string]int `json:"params"`
}

var (
	vals   = map[string][]uint64{}
	params = map[string]int{}
	base   int
)

// Load reads a replay file.
func Load(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		return err
	}
	vals = map[string][]uint64{}
	for _, i := range r.Inputs {
		vals[i.Name] = append(vals[i.Name], i.Val)
	}
	params = r.Params
	base = runtime.NumGoroutine()
	return nil
}

func next(name string) uint64 {
	q := vals[name]
	if len(q) == 0 {
		return 0
	}
	vals[name] = q[1:]
	return q[0]
}

// Bool is an arbitrary boolean.
func Bool(name string) bool { return next(name) != 0 }

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(next(name)) }

// U64 is an arbitrary 64-bit value.
func U64(name string) uint64 { return next(name) }

// U32 is an arbitrary 32-bit value.
func U32(name string) uint32 { return uint32(next(name)) }

// I64 is an arbitrary 64-bit value.
func I64(name string) int64 { return int64(next(name)) }

// Int is an arbitrary integer in [lo, hi].
func Int(name string, lo, hi int) int { return int(int64(next(name))) }

// Choose is an arbitrary value in [0, n), split into separate paths.
func Choose(name string, n int) int { return int(next(name)) }

// Bytes is an arbitrary byte string of length n.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(name))
	}
	return b
}

// Str is an arbitrary string of length n.
func Str(name string, n int) string { return string(Bytes(name, n)) }

type assumeFailed struct{}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		fmt.Println("REPLAY: assumption does not hold")
		os.Exit(3)
	}
}

// Assert states the property.
func Assert(c bool, label, msg string) {
	if !c {
		Fail(label, msg)
	}
}

// Fail reports a violation.
func Fail(label, msg string) {
	fmt.Printf("REPLAY-VIOLATION label=%s %s\n", label, msg)
	os.Exit(1)
}

// Reach is a reachability witness.
func Reach(label string) {}

// Note attaches information to the path.
func Note(msg string) {}

// Symbolic tells whether the symbolic executor runs the harness.
func Symbolic() bool { return false }

// Param is a bound of the harness.
func Param(name string, def int) int {
	if v, ok := params[name]; ok {
		return v
	}
	return def
}

// Concrete splits the path over the values of v.
func Concrete(v int) int { return v }

// ConcreteU64 splits the path over the values of v.
func ConcreteU64(v uint64) uint64 { return v }

// And does not fork.
func And(a, b bool) bool { return a && b }

// Or does not fork.
func Or(a, b bool) bool { return a || b }

// Implies does not fork.
func Implies(a, b bool) bool { return !a || b }

// IteU64 does not fork.
func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

// StrEq does not fork.
func StrEq(a, b string) bool { return a == b }

// BytesEq does not fork.
func BytesEq(a, b []byte) bool { return string(a) == string(b) }

// Quiesce waits until every other goroutine is blocked, and stays so for a while.
func Quiesce() {
	buf := make([]byte, 1<<20)
	quiet := 0
	for i := 0; i < 2000 && quiet < 20; i++ {
		runtime.Gosched()
		time.Sleep(2 * time.Millisecond)
		quiet++
		for n, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
			if n > 0 && (strings.Contains(g, "[running") || strings.Contains(g, "[runnable")) {
				quiet = 0
			}
		}
	}
}

// Blocked is the number of other goroutines that have not finished.
func Blocked() int {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	c := 0
	for i, g := range strings.Split(string(buf[:n]), "\n\n") {
		if i == 0 {
			continue
		}
		if strings.Contains(g, "rangedb") || strings.Contains(g, "verif/") {
			c++
		}
	}
	return c
}

// BlockedDesc describes them.
func BlockedDesc() string { return "" }

// NowNanos is the virtual time.
func NowNanos() int64 { return time.Now().UnixNano() }

// SetSched switches the scheduler ("det" for set-up, "cfg" for the configured one).
func SetSched(mode string) {}

// Caught runs f and reports whether it panicked.
func Caught(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			p = true
		}
	}()
	f()
	return false
}

// Err describes an error without looking at numbers in it.
func Err(err error) string {
	if err == nil {
		return "nil"
	}
	return err.Error()
}
