// Package v is the vocabulary of the harnesses. The symbolic engine gives these functions their symbolic meaning;
// the bodies below replay recorded inputs against the compiled code.
package v

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
	_ "verif.local/zv/model"
)

type input struct {
	Label string `json:"label"`
	Kind  string `json:"kind"`
	Val   uint64 `json:"val"`
}

type run struct {
	Entry  string  `json:"entry"`
	Inputs []input `json:"inputs"`
	Tier   string  `json:"tier"`
}

var (
	mu    sync.Mutex
	cur   run
	queue map[string][]input
	base  int
)

// WaitHook, when set, waits until every other goroutine of the bubble is blocked.
var WaitHook func()

func next(label string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	q := queue[label]
	if len(q) == 0 {
		say("VERIF-NOINPUT " + label)
		os.Exit(0)
	}
	queue[label] = q[1:]
	return q[0].Val
}

func say(s string) { os.Stdout.WriteString(strings.ReplaceAll(s, "\n", "\\n") + "\n") }

// Symbolic reports whether the symbolic engine is executing.
func Symbolic() bool { return false }

// Bool is any boolean.
func Bool(label string) bool { return next(label) != 0 }

// I64 is any integer in [lo, hi].
func I64(label string, lo, hi int64) int64 { return int64(next(label)) }

// Byte is any byte.
func Byte(label string) byte { return byte(next(label)) }

// Choice is any integer in [0, n), explored separately for each value.
func Choice(label string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(next(label))
}

// Assume restricts the executions considered.
func Assume(c bool) {
	if !c {
		say("VERIF-ASSUME")
		os.Exit(0)
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		say("VERIF-ASSERT-FAILED " + msg)
		os.Exit(0)
	}
}

// AssertKnown is Assert with a recorded finding: failures with pred true belong to the finding id.
func AssertKnown(c bool, msg, id string, pred bool) { Assert(c, msg) }

// Reach marks a point the harness must be able to reach.
func Reach(label string) {}

// Observe records a value for comparison between the engine and the compiled code.
func Observe(label string, x any) {
	mu.Lock()
	defer mu.Unlock()
	say("VERIF-OBS " + label + "=" + repr(x))
}

func repr(x any) string {
	switch y := x.(type) {
	case nil:
		return "nil"
	case string:
		return strconv.Quote(y)
	case bool:
		return fmt.Sprint(y)
	case int:
		return fmt.Sprint(y)
	case int64:
		return fmt.Sprint(y)
	case time.Duration:
		return fmt.Sprint(int64(y))
	case []string:
		ss := make([]string, len(y))
		for i := range y {
			ss[i] = strconv.Quote(y[i])
		}
		return "[" + strings.Join(ss, " ") + "]"
	case []int:
		ss := make([]string, len(y))
		for i := range y {
			ss[i] = fmt.Sprint(y[i])
		}
		return "[" + strings.Join(ss, " ") + "]"
	}
	return fmt.Sprintf("<%T>", x)
}

// Settle lets every other goroutine run until it blocks or ends, without letting time pass.
func Settle() {
	if WaitHook != nil {
		WaitHook()
		return
	}
	for i := 0; i < 200; i++ {
		runtime.Gosched()
		time.Sleep(100 * time.Microsecond)
	}
}

// Goroutines counts the live goroutines started by the harness and the code it runs.
func Goroutines() int { return runtime.NumGoroutine() - base }

// NondetMaps makes map iteration order any order.
func NondetMaps() {}

// Sched bounds the number of preemptions explored.
func Sched(n int) {}

// Steps bounds the instructions of one path.
func Steps(n int) {}

// NativeSkip tells that this path cannot be replayed natively.
func NativeSkip() { say("VERIF-NATIVESKIP"); os.Exit(0) }

// Thorough reports whether the deeper tier is running.
func Thorough() bool { return cur.Tier == "thorough" }

// Bound picks a bound by tier.
func Bound(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// And, Or and Implies combine conditions without branching.
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }

// Eq compares strings without branching.
func Eq(a, b string) bool { return a == b }

// Contains is strings.Contains without branching.
func Contains(s, sub string) bool { return strings.Contains(s, sub) }

// Conc forces concrete bytes.
func Conc(s string) string { return s }

// Str is any string of exactly n bytes.
func Str(label string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(label)
	}
	return string(b)
}

// StrUpTo is any string of at most n bytes.
func StrUpTo(label string, n int) string { return Str(label, Choice(label+".len", n+1)) }

// In reports whether c lies in one of the ranges given as pairs "azAZ09__".
func In(c byte, ranges string) bool {
	r := false
	for i := 0; i+1 < len(ranges); i += 2 {
		r = Or(r, And(ranges[i] <= c, c <= ranges[i+1]))
	}
	return r
}

// StrOf is any string of exactly n bytes from the ranges.
func StrOf(label string, n int, ranges string) string {
	s := Str(label, n)
	ok := true
	for i := 0; i < len(s); i++ {
		ok = And(ok, In(s[i], ranges))
	}
	Assume(ok)
	return s
}

// Ident is any ASCII identifier of exactly n bytes.
func Ident(label string, n int) string {
	s := StrOf(label, n, "azAZ09__")
	if n > 0 {
		Assume(!In(s[0], "09"))
	}
	return s
}

// OneOf is any of the strings.
func OneOf(label string, ss ...string) string { return ss[Choice(label, len(ss))] }

// Catch runs f and reports whether it panicked, and with what error or string.
func Catch(f func()) (panicked bool, val any) {
	defer func() {
		if r := recover(); r != nil {
			panicked, val = true, r
		}
	}()
	f()
	return
}

// Main replays the runs named by VERIF_RUN.
func Main(t *testing.T, entries map[string]func(), bubble func(t *testing.T, f func())) {
	file := os.Getenv("VERIF_RUN")
	if file == "" {
		t.Skip("VERIF_RUN not set")
	}
	debug.SetMaxStack(128 << 20)
	if os.Getenv("VERIF_MEMLIMIT") != "" {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30})
	}
	b, err := os.ReadFile(file)
	if err != nil {
		t.Fatal(err)
	}
	if err := json.Unmarshal(b, &cur); err != nil {
		t.Fatal(err)
	}
	f := entries[cur.Entry]
	if f == nil {
		var ns []string
		for k := range entries {
			ns = append(ns, k)
		}
		sort.Strings(ns)
		t.Fatalf("unknown entry %s, have %v", cur.Entry, ns)
	}
	queue = map[string][]input{}
	for _, in := range cur.Inputs {
		queue[in.Label] = append(queue[in.Label], in)
	}
	body := func() {
		base = runtime.NumGoroutine()
		func() {
			defer func() {
				if r := recover(); r != nil {
					say(fmt.Sprintf("VERIF-PANIC %v", r))
					if os.Getenv("VERIF_STACK") != "" {
						panic(r)
					}
					os.Exit(0)
				}
			}()
			f()
		}()
		say("VERIF-DONE")
		if os.Getenv("VERIF_NOEXIT") == "" {
			os.Exit(0)
		}
	}
	if bubble != nil {
		bubble(t, body)
	} else {
		body()
	}
}
