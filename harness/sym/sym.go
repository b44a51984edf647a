// Package sym is the harness interface. The symbolic engine intercepts these
// functions; compiled natively they replay one concrete assignment.
package sym

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var (
	mu     sync.Mutex
	values map[string]uint64
	occ    = map[string]int{}
)

func next(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	k := fmt.Sprintf("%s#%d", name, occ[name])
	occ[name]++
	return values[k]
}

// Bool is an arbitrary boolean.
func Bool(name string) bool { return next(name)&1 == 1 }

// Byte and the following are arbitrary integers of their type.
func Byte(name string) byte       { return byte(next(name)) }
func Uint16(name string) uint16   { return uint16(next(name)) }
func Uint32(name string) uint32   { return uint32(next(name)) }
func Uint64(name string) uint64   { return next(name) }
func Int64(name string) int64     { return int64(next(name)) }
func Int32(name string) int32     { return int32(next(name)) }
func Int(name string) int         { return int(next(name)) }
func Float64(name string) float64 { return math.Float64frombits(next(name)) }

// Bytes is n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(name)
	}
	return b
}

// Choice is an arbitrary number in [0,n), resolved to a constant on each path.
func Choice(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(next(name)) % n
}

// Assume restricts the inputs considered.
func Assume(c bool) {
	if !c {
		exit(4, "ASSUME-FALSE")
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		exit(3, "ASSERT-FAILED: "+msg)
	}
}

// Cover marks a point that must be reached for the check to mean anything.
func Cover(label string) {}

// Thorough tells which tier runs.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Symbolic is true under the engine.
func Symbolic() bool { return false }

func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

func Not(c bool) bool        { return !c }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func IteInt64(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}

// LessBytes is bytes.Compare(a, b) < 0.
func LessBytes(a, b []byte) bool { return bytes.Compare(a, b) < 0 }

// FixInt and FixBool resolve a value to a constant on each path.
func FixInt(x int) int    { return x }
func FixBool(b bool) bool { return b }

// Interleave makes goroutine scheduling arbitrary with at most n preemptions.
// Natively it makes Yield disturb the schedule: by following the counterexample's order,
// by holding single callers up for long, or a little every time.
func Interleave(n int) {
	restart()
	atomic.StoreInt32(&jitter, int32(n))
}

// Round begins one of several native tries of what depends on the schedule.
func Round() {
	rounds++
	restart()
}

func restart() {
	gate.Lock()
	defer gate.Unlock()
	guided = len(order) > 0 && rounds%2 != 1
	ids, fresh, last, arrived, moved = map[int]int{}, nil, -1, true, time.Now()
	if guided {
		ids[goid()], pos = order[0], 1
	}
	yields = 0
	for i := range stalls {
		stalls[i] = -1
		if rand.Intn(2) == 0 {
			stalls[i] = rand.Intn(24)
		}
	}
}

var (
	jitter  int32
	gate    sync.Mutex
	rounds  = -1
	yields  int
	stalls  [2]int
	order   []int // of the counterexample: goroutines as they pass Yield, the caller of Interleave first
	guided  bool
	pos     int
	ids     map[int]int // goroutine -> its number in order
	fresh   []int       // goroutines without a number yet
	last    int         // the goroutine that passed last
	arrived bool        // and whether it is at its next Yield
	moved   time.Time
)

func goid() int {
	var buf [64]byte
	s := string(buf[:runtime.Stack(buf[:], false)])
	s, _, _ = strings.Cut(strings.TrimPrefix(s, "goroutine "), " ")
	n, _ := strconv.Atoi(s)
	return n
}

// number gives the goroutines that have turned up their numbers, in order of creation.
func number() {
	used := map[int]bool{}
	for _, id := range ids {
		used[id] = true
	}
	var free []int
	for _, id := range order {
		if !used[id] {
			used[id] = true
			free = append(free, id)
		}
	}
	sort.Ints(free)
	sort.Ints(fresh)
	if len(fresh) < len(free) && time.Since(moved) < 5*time.Millisecond {
		return // there may be more
	}
	for i, g := range fresh {
		ids[g] = -1
		if i < len(free) {
			ids[g] = free[i]
		}
	}
	fresh = nil
}

// follow waits for the caller's turn in the counterexample's order; false when that order
// is not (or no longer) followed.
func follow() bool {
	me := goid()
	gate.Lock()
	if !guided {
		gate.Unlock()
		return false
	}
	if me == last {
		arrived = true
	}
	if _, seen := ids[me]; !seen {
		fresh = append(fresh, me)
	}
	for {
		if !guided || pos >= len(order) || time.Since(moved) > 150*time.Millisecond {
			guided = false
			gate.Unlock()
			return false
		}
		if len(fresh) > 0 {
			number()
		}
		id, seen := ids[me]
		turn := seen && id == order[pos]
		// let the one before run until it stops
		if turn && (arrived || last == me || time.Since(moved) > 15*time.Millisecond) {
			pos++
			last, arrived, moved = me, false, time.Now()
			gate.Unlock()
			return true
		}
		gate.Unlock()
		time.Sleep(100 * time.Microsecond)
		gate.Lock()
	}
}

// Tries is how often to repeat something whose schedule is the scheduler's choice: once
// under the engine, which explores the schedules, n times natively (where the schedule
// of a counterexample has to be found again; else a few).
func Tries(n int) int {
	if len(order) == 0 && n > 3 {
		return 3
	}
	return n
}

// Yield is a scheduling point.
func Yield(what string) {
	if atomic.LoadInt32(&jitter) == 0 {
		return
	}
	if follow() {
		return
	}
	gate.Lock()
	n := yields
	yields++
	stall := stalls[0] == n || stalls[1] == n
	gate.Unlock()
	if stall {
		time.Sleep(20 * time.Millisecond)
		return
	}
	switch rand.Intn(8) {
	case 0, 1, 2:
		runtime.Gosched()
	case 3:
		time.Sleep(time.Duration(rand.Intn(50)) * time.Microsecond)
	}
}

// Trace records a line in the counterexample.
func Trace(format string, args ...interface{}) {
	if os.Getenv("SYM_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "trace: "+format+"\n", args...)
	}
}

// Stop ends the run as successful.
func Stop() { exit(0, "STOPPED") }

// Unsupported gives up on this path.
func Unsupported(why string) { exit(5, "UNSUPPORTED "+why) }

func exit(code int, msg string) {
	fmt.Println(msg)
	runCleanup()
	os.Exit(code)
}

var cleanups []func()

var tempN int

// TempDir names a fresh directory (a real one in native runs).
func TempDir(name string) string {
	tempN++
	if Symbolic() {
		return "/scratch/" + name + string(rune('0'+tempN))
	}
	d, err := os.MkdirTemp("", name)
	if err != nil {
		panic(err)
	}
	OnExit(func() { os.RemoveAll(d) })
	return d
}

// OnExit registers cleanup for native runs (scratch directories and the like).
func OnExit(f func()) { cleanups = append(cleanups, f) }

func runCleanup() {
	defer func() { recover() }()
	for _, f := range cleanups {
		f()
	}
}

// Main replays the assignment in the file named by SYM_VALUES.
func Main(hs map[string]func()) {
	name := os.Getenv("SYM_HARNESS")
	f := hs[name]
	if f == nil {
		fmt.Println("NO-HARNESS", name)
		os.Exit(9)
	}
	b, err := os.ReadFile(os.Getenv("SYM_VALUES"))
	if err != nil {
		fmt.Println(err)
		os.Exit(9)
	}
	var rec struct {
		Values map[string]uint64
		Order  []int
	}
	if err := json.Unmarshal(b, &rec); err != nil {
		fmt.Println(err)
		os.Exit(9)
	}
	values, order = rec.Values, rec.Order
	time.AfterFunc(40*time.Second, func() {
		fmt.Println("TIMEOUT")
		os.Exit(6)
	})
	defer func() {
		if r := recover(); r != nil {
			fmt.Printf("PANIC: %v\n", r)
			runCleanup()
			os.Exit(7)
		}
	}()
	f()
	runCleanup()
	fmt.Println("HELD")
}
