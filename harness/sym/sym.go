// Package sym is the harness API. The symbolic executor intercepts every
// function here; the bodies below are what runs natively when a
// counterexample is replayed against the compiled code.
package sym

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sync"
	"time"
)

var (
	mu     sync.Mutex
	inputs map[string]uint64
	cnt    = map[string]int{}
	tier   int
)

// Load reads the inputs of a counterexample (native mode only).
func Load(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	var f struct {
		Inputs map[string]uint64
		Tier   int
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	inputs, tier = f.Inputs, f.Tier
}

func in(base string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	n := cnt[base]
	cnt[base]++
	if n > 0 {
		base = fmt.Sprintf("%s#%d", base, n)
	}
	return inputs[base]
}

// Byte and friends are arbitrary values of their type.
func Byte(name string) byte     { return byte(in(name)) }
func Uint16(name string) uint16 { return uint16(in(name)) }
func Uint32(name string) uint32 { return uint32(in(name)) }
func Uint64(name string) uint64 { return in(name) }
func Bool(name string) bool     { return in(name) == 1 }

// Int is an arbitrary integer in [lo,hi].
func Int(name string, lo, hi int) int { return int(in(name)) }

// Pick is an arbitrary integer in [0,n), made concrete: one path per value.
func Pick(name string, n int) int { return int(in(name)) }

// Bytes is a slice of n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(in(fmt.Sprintf("%s.%d", name, i)))
	}
	return b
}

// Assume drops the executions where c does not hold.
func Assume(c bool) {
	if !c {
		fmt.Println("assumption does not hold on this input")
		os.Exit(0)
	}
}

// Assert is a property.
func Assert(c bool, label string) {
	if !c {
		Fail(label)
	}
}

// Fail is a violated property.
func Fail(label string) {
	fmt.Println("REPLAY-VIOLATION", label)
	os.Exit(1)
}

func Cover(label string) {}
func Conc(v int) int     { return v }
func IsSym(v any) bool   { return false }
func Note(s string)      {}
func Native() bool       { return true }
func Yield()             {}
func Explore(dev int)    {}
func MapOrder()          {}

// Early lets timers due within d fire while goroutines are still runnable.
func Early(d time.Duration) {}
func Race()                 {}
func Dump()                 {}

// Touch marks an access to b by the calling goroutine for race checking.
func Touch(b []byte, write bool) {}

// Goroutines is the number of goroutines; compare two results.
func Goroutines() int { return runtime.NumGoroutine() }
func Stacks() string  { return "" }

// Budget limits what is allocated from here on to n bytes; 0 ends it. Natively
// the end is where it is checked, with room for the runtime's own needs.
func Budget(n int) {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if n == 0 && m.TotalAlloc-allocBase > uint64(allocMax)+4<<20 {
		Fail("allocates out of proportion to the bytes received")
	}
	allocBase, allocMax = m.TotalAlloc, n
}

var allocBase uint64
var allocMax int

// Tier is 0 for the quick and 1 for the thorough check.
func Tier() int { return tier }

// Reaches reports whether target (a pointer) is reachable from root.
func Reaches(root, target any) bool {
	return reach(reflect.ValueOf(root), reflect.ValueOf(target).Pointer(), map[uintptr]bool{})
}

func reach(v reflect.Value, t uintptr, seen map[uintptr]bool) bool {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return false
		}
		if v.Pointer() == t {
			return true
		}
		if seen[v.Pointer()] {
			return false
		}
		seen[v.Pointer()] = true
		return reach(v.Elem(), t, seen)
	case reflect.Interface:
		return !v.IsNil() && reach(v.Elem(), t, seen)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if reach(v.Field(i), t, seen) {
				return true
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if reach(v.Index(i), t, seen) {
				return true
			}
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			if reach(it.Key(), t, seen) || reach(it.Value(), t, seen) {
				return true
			}
		}
	}
	return false
}

// Wait is set by the native runner (synctest.Wait).
var Wait = func() { time.Sleep(time.Millisecond) }

// Idle returns when every other goroutine is blocked.
func Idle() { Wait() }

// Lock and Unlock protect harness state natively. In the executor goroutines
// only switch at synchronisation, so they do nothing and add no interleaving.
var big sync.Mutex

func Lock()   { big.Lock() }
func Unlock() { big.Unlock() }
