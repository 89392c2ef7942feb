// Package verif is the interface between harnesses and the symbolic engine. Under the engine every
// function here is interpreted symbolically; compiled natively, inputs come from a recorded replay.
package verif

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sync"
	"time"
)

type input struct {
	Name  string          `json:"name"`
	Kind  string          `json:"kind"`
	Value json.RawMessage `json:"value"`
}

var (
	inputs  []input
	next    int
	covered []string

	thorough bool
)

// Violated is the panic value of a failed assertion.
type Violated struct{ Msg string }

// Skip is the panic value of a violated assumption or exhausted replay.
type Skip struct{ Msg string }

// Load reads a replay.
func Load(path string) error {
	data, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	return LoadBytes(data)
}

// LoadBytes reads a replay.
func LoadBytes(data []byte) error {
	var v struct {
		Inputs   []input `json:"inputs"`
		Thorough bool    `json:"thorough"`
	}
	if err := json.Unmarshal(data, &v); err != nil {
		return err
	}
	inputs, next, thorough, covered = v.Inputs, 0, v.Thorough, nil
	base = runtime.NumGoroutine()
	return nil
}

// Thorough reports whether the deep bounds are in force.
func Thorough() bool { return thorough }

// Covered lists the cover points reached so far.
func Covered() []string { return covered }

func take(name string) input {
	// inputs the engine chose for itself (map order, select) are not drawn natively
	if next >= len(inputs) {
		panic(Skip{"replay exhausted at " + name})
	}
	in := inputs[next]
	next++
	if in.Name != name && len(in.Name) < len(name) {
		panic(Skip{"replay expected " + in.Name + ", harness drew " + name})
	}
	return in
}

func num(name string) int64 {
	in := take(name)
	var v int64
	if err := json.Unmarshal(in.Value, &v); err != nil {
		panic(Skip{err.Error()})
	}
	return v
}

func raw(name string) []byte {
	in := take(name)
	var v []int
	if err := json.Unmarshal(in.Value, &v); err != nil {
		panic(Skip{err.Error()})
	}
	b := make([]byte, len(v))
	for i := range v {
		b[i] = byte(v[i])
	}
	return b
}

// Byte returns an arbitrary byte.
func Byte(name string) byte { return byte(num(name)) }

// Uint16 returns an arbitrary uint16.
func Uint16(name string) uint16 { return uint16(num(name)) }

// Uint32 returns an arbitrary uint32.
func Uint32(name string) uint32 { return uint32(num(name)) }

// Int16 returns an arbitrary int16.
func Int16(name string) int16 { return int16(num(name)) }

// Int32 returns an arbitrary int32.
func Int32(name string) int32 { return int32(num(name)) }

// Int64 returns an arbitrary int64.
func Int64(name string) int64 { return num(name) }

// Int returns an arbitrary int.
func Int(name string) int { return int(num(name)) }

// Bool returns an arbitrary boolean.
func Bool(name string) bool { return num(name) != 0 }

// Choice returns an arbitrary value of 0..n-1, exploring each separately.
func Choice(name string, n int) int { return int(num(name)) }

// IntRange returns an arbitrary int of lo..hi, kept symbolic.
func IntRange(name string, lo, hi int) int { return int(num(name)) }

// Bytes returns n arbitrary bytes.
func Bytes(name string, n int) []byte { return raw(name) }

// String returns an arbitrary string of n bytes.
func String(name string, n int) string { return string(raw(name)) }

// Assume restricts attention to executions where c holds.
func Assume(c bool) {
	if !c {
		panic(Skip{"assumption does not hold"})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(Violated{msg})
	}
}

// Cover marks a point that must be reachable.
func Cover(name string) { covered = append(covered, name) }

// AllocBytes returns the bytes allocated so far.
func AllocBytes() int64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return int64(ms.TotalAlloc)
}

// Symbolic reports whether the engine is executing.
func Symbolic() bool { return false }

// Concrete fixes a value, exploring every feasible one.
func Concrete(v int) int { return v }

// Settle lets the other goroutines run until none can move.
func Settle() { time.Sleep(50 * time.Millisecond) }

// Ite chooses without forking.
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// And is conjunction without forking.
func And(a, b bool) bool { return a && b }

// Or is disjunction without forking.
func Or(a, b bool) bool { return a || b }

// EqBytes compares without forking per byte.
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// EqStr compares without forking.
func EqStr(a, b string) bool { return a == b }

// AssignTo stores err in target when the types allow. Engine only.
func AssignTo(err error, target interface{}) bool { panic("engine only") }

// Comparable reports whether v's dynamic type is comparable. Engine only.
func Comparable(v interface{}) bool { panic("engine only") }

// TypeName names v's dynamic type.
func TypeName(v interface{}) string { return fmt.Sprintf("%T", v) }

// Decompose is the kind of v and its parts, for formatting. Engine only.
func Decompose(v interface{}) (string, []interface{}) { panic("engine only") }

// SliceLen and SliceSwap work on a slice of any type. Engine only.
func SliceLen(s interface{}) int { panic("engine only") }

// SliceSwap exchanges two elements.
func SliceSwap(s interface{}, i, j int) { panic("engine only") }

// FieldLen is the number of entries of the map field of that name of the struct p points to; -1 without such a field.
func FieldLen(p interface{}, name string) int {
	f := reflect.ValueOf(p).Elem().FieldByName(name)
	if !f.IsValid() || f.Kind() != reflect.Map {
		return -1
	}
	return f.Len()
}

// StringField is the string field of the struct v points to that the configuration key means, or nil. Engine only.
func StringField(v interface{}, key string) *string { panic("engine only") }

// IsSymbolic reports whether v has no fixed value.
func IsSymbolic(v int64) bool { return false }

var (
	envMu   sync.Mutex
	envCond = sync.NewCond(&envMu)

	base int
)

// Sync performs body as one operation on the objects keys point to, once cond holds. Conditions may only depend on state
// changed by such operations.
func Sync(cond func() bool, body func(), keys ...interface{}) {
	envMu.Lock()
	defer envMu.Unlock()
	for cond != nil && !cond() {
		envCond.Wait()
	}
	if body != nil {
		body()
	}
	envCond.Broadcast()
}

// Running counts the goroutines that have not ended, the caller included.
func Running() int {
	for i := 0; i < 100 && runtime.NumGoroutine() > base; i++ {
		time.Sleep(2 * time.Millisecond)
	}
	return runtime.NumGoroutine() - base + 1
}

// Sleep pauses until nothing else can run.
func Sleep() { time.Sleep(time.Millisecond) }

// StartTimer runs f in a goroutine of its own once nothing else can run. Engine only.
func StartTimer(key interface{}, f func()) { panic("engine only") }

// StopTimer prevents a timer from firing. Engine only.
func StopTimer(key interface{}) bool { panic("engine only") }

// OnceEnter and OnceLeave bracket the function of a sync.Once. Engine only.
func OnceEnter(o *sync.Once) bool { panic("engine only") }

// OnceLeave marks the function as run.
func OnceLeave(o *sync.Once) { panic("engine only") }

// Depth is the height of the caller's stack.
func Depth() int { return runtime.Callers(0, make([]uintptr, 4096)) }
