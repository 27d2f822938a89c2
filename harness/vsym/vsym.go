// Package vsym is the interface between harnesses and the symbolic engine.
// The bodies here are the native meaning, used when a counterexample is
// replayed on the compiled code; the engine gives its own meaning to each
// function.
package vsym

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
)

type table struct {
	N    int64 `json:"n"`
	Tabs []struct {
		Path []int             `json:"path"`
		W    int               `json:"w"`
		V    map[string]string `json:"v"`
	} `json:"tabs"`
}

var (
	inputs  map[string]json.RawMessage
	count   map[string]int
	notes   []string
	maxA    uint64
	hasRand bool
	randK   = -1
	// randSeed changes from run to run when a replay is repeated
	randSeed int64
	obs      string
)

type stop struct{ why string }

func fresh(name string) string {
	n := count[name]
	count[name] = n + 1
	if n == 0 {
		return name
	}
	return fmt.Sprintf("%s.%d", name, n)
}

func num(name string) uint64 {
	if randK >= 0 {
		return xval(randK, fresh(name))
	}
	r, ok := inputs[fresh(name)]
	if !ok {
		return 0
	}
	var s string
	if json.Unmarshal(r, &s) != nil {
		panic(stop{"VSYM-INTERNAL bad input " + name})
	}
	v, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		i, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			panic(stop{"VSYM-INTERNAL bad input " + name})
		}
		v = uint64(i)
	}
	return v
}

// Unconstrained values.
func Bool(name string) bool {
	if randK >= 0 {
		return num(name)&1 != 0
	}
	return num(name) != 0
}
func U8(name string) uint8   { return uint8(num(name)) }
func U16(name string) uint16 { return uint16(num(name)) }
func U32(name string) uint32 { return uint32(num(name)) }
func U64(name string) uint64 { return num(name) }
func I16(name string) int16  { return int16(num(name)) }
func I32(name string) int32  { return int32(num(name)) }
func I64(name string) int64  { return int64(num(name)) }

// Int is a value in [lo, hi].
func Int(name string, lo, hi int) int {
	if lo > hi {
		panic(stop{"VSYM-ASSUME"})
	}
	if randK >= 0 {
		if lo == hi {
			fresh(name)
			return lo
		}
		return lo + int(num(name)%uint64(hi-lo+1))
	}
	v := int(num(name))
	if v < lo || v > hi {
		return lo
	}
	return v
}

// Choose forks over 0..n-1.
func Choose(name string, n int) int {
	if randK >= 0 {
		return int(num(name) % uint64(n))
	}
	return int(num(name))
}

// Fork makes a value concrete, one path for each possibility.
func Fork(v int) int { return v }

// Bytes is a slice of n unconstrained bytes.
func Bytes(name string, n int) []byte { return Slice[byte](name, n) }

// Slice is a slice of n unconstrained elements (scalars or structs of them).
func Slice[T any](name string, n int) []T {
	nm := fresh(name)
	if n > 1<<28 {
		panic(stop{"VSYM-INTERNAL slice too long"})
	}
	s := make([]T, n)
	if randK >= 0 {
		rv := reflect.ValueOf(s)
		for i := 0; i < n; i++ {
			fill(rv.Index(i), fmt.Sprintf("%s@%d", nm, i))
		}
		return s
	}
	r, ok := inputs[nm]
	if !ok {
		return s
	}
	var t table
	if err := json.Unmarshal(r, &t); err != nil {
		panic(stop{"VSYM-INTERNAL bad input " + name})
	}
	rv := reflect.ValueOf(s)
	for _, f := range t.Tabs {
		for k, v := range f.V {
			i, err := strconv.ParseUint(k, 10, 64)
			if err != nil || i >= uint64(n) {
				continue
			}
			x, err := strconv.ParseUint(v, 10, 64)
			if err != nil {
				continue
			}
			e := rv.Index(int(i))
			for _, p := range f.Path {
				e = e.Field(p)
			}
			switch e.Kind() {
			case reflect.Bool:
				e.SetBool(x != 0)
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				sh := 64 - e.Type().Bits()
				e.SetInt(int64(x<<sh) >> sh)
			default:
				e.SetUint(x)
			}
		}
	}
	return s
}

func fill(e reflect.Value, nm string) {
	switch e.Kind() {
	case reflect.Struct:
		for i := 0; i < e.NumField(); i++ {
			fill(e.Field(i), fmt.Sprintf("%s/%d", nm, i))
		}
	case reflect.Bool:
		e.SetBool(xval(randK, nm)&1 != 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sh := 64 - e.Type().Bits()
		e.SetInt(int64(xval(randK, nm)<<sh) >> sh)
	default:
		sh := 64 - e.Type().Bits()
		e.SetUint(xval(randK, nm) << sh >> sh)
	}
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(stop{"VSYM-ASSUME"})
	}
}

// Assert is a property to be decided.
func Assert(c bool, label string) {
	if !c {
		panic(stop{"VSYM-FAIL " + label})
	}
}

// Hint suggests a lemma; it is used only if the solver proves it.
func Hint(c bool) {}

// RandReset makes the random source repeat its draws.
func RandReset() { rand.Seed(randSeed) }

// Cut lets the solver try proofs in which v has an arbitrary value.
func Cut[T any](v T) {}

// Cover marks a point that must be reachable.
func Cover(label string) {}

// Prefer states a preference for counterexamples.
func Prefer(c bool) {}

// Symbolic tells whether the engine runs the harness.
func Symbolic() bool { return false }

// MapOrders turns exploration of all map iteration orders on or off.
func MapOrders(on bool) {}

// Schedules turns exploration of all goroutine schedules on or off.
func Schedules(on bool) {}

// MaxAlloc states the largest single allocation allowed.
func MaxAlloc(n int) { maxA = uint64(n) }

// Bound gives a bound by tier.
func Bound(name string, quick, thorough int) int {
	if os.Getenv("VSYM_TIER") == "thorough" {
		return thorough
	}
	return quick
}

// Note records values for the replay.
func Note(s string, v ...any) { notes = append(notes, s+": "+fmt.Sprint(v...)) }

// Observe records a value for the cross-check of the engine.
func Observe(name string, v uint64) { obs += fmt.Sprintf(" %s=%d", name, v) }

// xval is the value of an input in vector k; the engine has the same function.
func xval(k int, name string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d:%s", k, name)
	v := h.Sum64()
	v ^= v >> 29
	v *= 0xbf58476d1ce4e5b9
	v ^= v >> 32
	switch v % 8 {
	case 0:
		return 0
	case 1:
		return 0xffffffffffffffff
	case 2:
		return (v >> 8) % 5
	case 3:
		return 0x7ffe + (v>>8)%4
	case 4:
		return uint64(k) * 2654435761
	}
	return v >> 8
}

func randRun(f func()) (out string) {
	count = map[string]int{}
	obs = ""
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(stop); ok {
				out = s.why
				return
			}
			out = fmt.Sprint("panic ", r)
		}
		out = strings.ReplaceAll(out, "\n", " ")
	}()
	f()
	return "done" + obs
}

// And, Or and Implies do not fork.
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool { return !a || b }

// Ite picks a value without forking.
func Ite[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}

// PtrKey identifies a pointer.
func PtrKey(p any) string { return fmt.Sprintf("%p", p) }

// Catch runs f and reports whether it panicked.
func Catch(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if IsStop(r) {
				panic(r)
			}
			panicked = true
		}
	}()
	f()
	return false
}

// IsStop tells vsym's own control flow from panics of the code.
func IsStop(r any) bool {
	_, ok := r.(stop)
	return ok
}

// Main is the entry point of native replays.
func Main(hs map[string]func()) {
	f := hs[os.Args[1]]
	if f == nil {
		fmt.Println("VSYM-INTERNAL no harness", os.Args[1])
		os.Exit(4)
	}
	if os.Args[2] == "-rand" {
		n, _ := strconv.Atoi(os.Args[3])
		for randK = 0; randK < n; randK++ {
			fmt.Println(randRun(f))
		}
		return
	}
	b, err := os.ReadFile(os.Args[2])
	if err != nil {
		fmt.Println("VSYM-INTERNAL", err)
		os.Exit(4)
	}
	var file struct {
		Inputs map[string]json.RawMessage
	}
	if err := json.Unmarshal(b, &file); err != nil {
		fmt.Println("VSYM-INTERNAL", err)
		os.Exit(4)
	}
	inputs = file.Inputs
	n := 1
	for k := range inputs {
		if k == "rand" || len(k) > 5 && k[:5] == "rand." {
			// the code draws random numbers: they cannot be dictated
			// natively, so the run is repeated
			n = 400000
		}
	}
	for i := 0; i < n; i++ {
		randSeed = int64(i)
		if once(f) {
			os.Exit(1)
		}
	}
	fmt.Println("VSYM-OK")
}

func once(f func()) (failed bool) {
	count = map[string]int{}
	notes = nil
	maxA = 0
	var ms0, ms1 runtime.MemStats
	runtime.ReadMemStats(&ms0)
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		for _, n := range notes {
			fmt.Println("  ", n)
		}
		if s, ok := r.(stop); ok {
			if s.why == "VSYM-ASSUME" {
				return
			}
			fmt.Println(s.why)
			failed = true
			return
		}
		fmt.Println("VSYM-PANIC", r)
		failed = true
	}()
	f()
	if maxA > 0 {
		runtime.ReadMemStats(&ms1)
		if d := ms1.TotalAlloc - ms0.TotalAlloc; d > maxA {
			panic(stop{fmt.Sprintf("VSYM-FAIL allocated %d bytes, limit %d", d, maxA)})
		}
	}
	return false
}
