// Package verifsym is the harness API.  Under the symbolic engine every function marked
// "intrinsic" is replaced; natively the same functions read a replay file.
package verifsym

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"
)

type replayFile struct {
	Inputs   map[string]json.RawMessage `json:"inputs"`
	Thorough bool                       `json:"thorough"`
}

var (
	mu     sync.Mutex
	counts = map[string]int{}
	rep    replayFile
	failed []string
	obs    []string
	active *testing.T
)

type assumeFailed struct{}

func key(name string) string {
	mu.Lock()
	defer mu.Unlock()
	n := counts[name]
	counts[name]++
	return name + "#" + strconv.Itoa(n)
}

func input(name string) int64 {
	k := key(name)
	mu.Lock()
	defer mu.Unlock()
	if r, ok := rep.Inputs[k]; ok {
		var s string
		if json.Unmarshal(r, &s) == nil {
			if v, err := strconv.ParseInt(s, 10, 64); err == nil {
				return v
			}
			u, _ := strconv.ParseUint(s, 10, 64)
			return int64(u)
		}
	}
	return 0
}

func rawInput(name string) ([]byte, bool) {
	k := key(name)
	mu.Lock()
	defer mu.Unlock()
	r, ok := rep.Inputs[k]
	if !ok {
		return nil, false
	}
	var s []int
	if json.Unmarshal(r, &s) != nil {
		return nil, false
	}
	b := make([]byte, len(s))
	for i := range s {
		b[i] = byte(s[i])
	}
	return b, true
}

// Size is quick or thorough depending on the tier (intrinsic).
func Size(quick, thorough int) int {
	if rep.Thorough {
		return thorough
	}
	return quick
}

// Symbolic reports whether the engine is running the harness (intrinsic).
func Symbolic() bool { return false }

func Int(name string) int       { return int(input(name)) }       // intrinsic
func Int64(name string) int64   { return input(name) }            // intrinsic
func Int32(name string) int32   { return int32(input(name)) }     // intrinsic
func Int16(name string) int16   { return int16(input(name)) }     // intrinsic
func Int8(name string) int8     { return int8(input(name)) }      // intrinsic
func Uint64(name string) uint64 { return uint64(input(name)) }    // intrinsic
func Uint32(name string) uint32 { return uint32(input(name)) }    // intrinsic
func Uint16(name string) uint16 { return uint16(input(name)) }    // intrinsic
func Uint(name string) uint     { return uint(input(name)) }      // intrinsic
func Byte(name string) byte     { return byte(input(name)) }      // intrinsic
func Bool(name string) bool     { return input(name)&1 != 0 }     // intrinsic
func Float64(name string) float64 {                               // intrinsic
	return f64(uint64(input(name)))
}
func Float32(name string) float32 { return f32(uint32(input(name))) } // intrinsic

// IntRange is a symbolic integer with lo <= v <= hi.
func IntRange(name string, lo, hi int) int {
	v := Int(name)
	if !Symbolic() && (v < lo || v > hi) {
		v = lo
	}
	Assume(v >= lo && v <= hi)
	return v
}

// B2I is 1 or 0 without forking (intrinsic).
func B2I(c bool) int {
	if c {
		return 1
	}
	return 0
}

// And, Or and Implies are the connectives without forking (intrinsic).
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }

// Choice is one of 0..n-1, resolved by forking (intrinsic).
func Choice(name string, n int) int {
	v := int(input(name))
	if v < 0 || v >= n {
		v = 0
	}
	return v
}

// String is a symbolic string of at most max bytes (intrinsic).
func String(name string, max int) string {
	b, _ := rawInput(name)
	return string(b)
}

// StringN is a symbolic string of exactly n bytes (intrinsic).
func StringN(name string, n int) string {
	b, ok := rawInput(name)
	if !ok {
		b = make([]byte, n)
	}
	return string(b)
}

// Bytes is a symbolic byte slice of at most max bytes (intrinsic).
func Bytes(name string, max int) []byte {
	b, _ := rawInput(name)
	return b
}

func Assume(c bool) { // intrinsic
	if !c {
		panic(assumeFailed{})
	}
}

func Assert(c bool, label string) { // intrinsic
	if !c {
		mu.Lock()
		failed = append(failed, label)
		mu.Unlock()
		fmt.Println("VERIF-ASSERT-FAIL " + label)
	}
}

// Fail is Assert(false).
func Fail(label string) { Assert(false, label) }

// Reach is a reachability witness: some explored path must get here (intrinsic).
func Reach(label string) {
	mu.Lock()
	defer mu.Unlock()
	obs = append(obs, "reach "+label)
}

// Observe records a value that native validation compares (intrinsic).
func Observe(label string, v int) {
	mu.Lock()
	defer mu.Unlock()
	obs = append(obs, label+"="+strconv.Itoa(v))
	fmt.Println("VERIF-OBS " + label + "=" + strconv.Itoa(v))
}

// Yield is a scheduling point (intrinsic).
func Yield() { time.Sleep(time.Millisecond) }

// Quiesce lets every other goroutine run until none can continue (intrinsic).
func Quiesce() { time.Sleep(60 * time.Millisecond) }

// Advance lets d of time pass (intrinsic: virtual time).
func Advance(d time.Duration) { time.Sleep(d) }

// Now is the current (virtual) time in nanoseconds (intrinsic).
func Now() int64 { return time.Now().UnixNano() }

// Atomic runs f without letting other goroutines run (intrinsic).
func Atomic(f func()) {
	atomicMu.Lock()
	defer atomicMu.Unlock()
	f()
}

// Setup runs f; the engine does not interleave other goroutines with it (intrinsic).
func Setup(f func()) { f() }

var atomicMu sync.Mutex

// Main is the entry of the native driver.
func Main(t *testing.T, hs map[string]func()) {
	f := os.Getenv("VERIF_REPLAY")
	h := os.Getenv("VERIF_HARNESS")
	if f == "" || hs[h] == nil {
		t.Skip("no replay requested")
	}
	b, err := os.ReadFile(f)
	if err != nil {
		t.Fatal(err)
	}
	if err := json.Unmarshal(b, &rep); err != nil {
		t.Fatal(err)
	}
	active = t
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(assumeFailed); ok {
					fmt.Println("VERIF-ASSUME-FAILED")
					return
				}
				fmt.Printf("VERIF-PANIC %v\n", r)
				panic(r)
			}
		}()
		hs[h]()
		fmt.Println("VERIF-DONE")
	}()
	mu.Lock()
	defer mu.Unlock()
	if len(failed) > 0 {
		t.Fatalf("assertions failed: %v", failed)
	}
}
