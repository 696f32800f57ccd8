package simrt

import (
	"fmt"
	"math"
	"reflect"
	"runtime"
	"sort"
	"unsafe"
)

func funcName(p uintptr) string {
	if f := runtime.FuncForPC(p); f != nil {
		n := f.Name()
		if len(n) > 8 && n[:8] == "simmod/n" {
			for i := 8; i < len(n); i++ {
				if n[i] == '/' {
					return n[i+1:]
				}
			}
		}
		return n
	}
	return "?"
}

func deadOp() {
	if cur == nil {
		panic(Unsupported("simulated operation outside of a task"))
	}
	runtime.Goexit()
}

// Zero resets a package variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// V is a preemption point between the evaluation of a value and its use.
func V[T any](v T) T {
	Y()
	return v
}

// ---- maps ----

var mapWriters = map[uintptr]*Task{}

func mapKey[M any](m M) uintptr { return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&m))) }

// MR is a map about to be read.
func MR[M ~map[K]V, K comparable, V any](m M) M {
	if mapBusy > 0 {
		mapRead(mapKey(m))
	}
	return m
}

func mapRead(k uintptr) {
	if t := mapWriters[k]; t != nil && t != cur && cur != nil && !cur.dead && !t.dead {
		Die("fatal error: concurrent map read and map write", 2)
	}
}

// MW is a map about to be written. Another task using it at this point, not
// kept away by a lock, is what the Go runtime ends the process for.
func MW[M ~map[K]V, K comparable, V any](m M) M {
	t := cur
	if t == nil || t.dead || m == nil {
		return m
	}
	k := mapKey(m)
	if x := mapWriters[k]; x != nil && x != t && !x.dead {
		Die("fatal error: concurrent map writes", 2)
	}
	if mapWriters[k] == t {
		return m
	}
	mapWriters[k] = t
	mapBusy++
	defer func() { delete(mapWriters, k); mapBusy-- }()
	Y()
	return m
}

// MapZero declares the variables of a range over a map.
func MapZero[M ~map[K]V, K comparable, V any](m M) (K, V) {
	var k K
	var v V
	return k, v
}

// MapGet fetches the value of the next key of a range, false if it is gone.
func MapGet[M ~map[K]V, K comparable, V any](m M, k K, v *V) bool {
	x, ok := MR(m)[k]
	if ok && v != nil {
		*v = x
	}
	return ok
}

// MapKeys is the order in which a range visits the keys of a map: any order,
// decided by the scheduler's choices.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	if len(m) == 0 {
		return nil
	}
	MR(m)
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) == 1 {
		return ks
	}
	switch x := any(ks).(type) {
	case []string:
		sort.Strings(x)
	case []int:
		sort.Ints(x)
	default:
		sort.Slice(ks, func(i, j int) bool { return lessVal(reflect.ValueOf(ks[i]), reflect.ValueOf(ks[j])) })
	}
	if cur == nil || cur.dead {
		return ks
	}
	if s := W.Sched.draw(func() uint32 { return uint32(W.Sched.next()) }, 0); s != 0 {
		r := newStream(uint64(s))
		for i := len(ks) - 1; i > 0; i-- {
			j := int(r.next() % uint64(i+1))
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	return ks
}

func lessVal(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.String:
		return a.String() < b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	case reflect.Bool:
		return !a.Bool() && b.Bool()
	case reflect.Float64, reflect.Float32:
		return a.Float() < b.Float()
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

// ---- allocation ----

// MemLimit is the largest single allocation a node can make.
const MemLimit = 4 << 30

// Integer is any integer type.
type Integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

// Mk checks the length of an allocation.
func Mk[T Integer](n T, size int64) T {
	if cur == nil || n <= 0 {
		return n
	}
	if u := uint64(n); u < 1<<47 && size > 0 && float64(u)*float64(size) > MemLimit && u <= math.MaxInt64/uint64(size) {
		Die("fatal error: runtime: out of memory", 2)
	}
	return n
}

// UnsupFunc stands for a function the simulation does not model.
func UnsupFunc[F any](f F, name string) F {
	t := reflect.TypeOf(f)
	return reflect.MakeFunc(t, func([]reflect.Value) []reflect.Value {
		if cur != nil && cur.dead {
			runtime.Goexit()
		}
		panic(Unsupported(name))
	}).Interface().(F)
}

// After calls fn in the kernel after d nanoseconds and returns its canceller.
func After(d int64, fn func()) func() bool {
	if cur != nil && cur.dead {
		deadOp()
	}
	t := W.At(d, fn)
	return t.stop
}

// Rand64 is a random number of the code under test.
func Rand64() uint64 {
	if cur == nil || cur.dead {
		return 4
	}
	return W.Sched.U64()
}

// Exit is runtime.Goexit.
func Exit() { runtime.Goexit() }

// ---- ranges ----

// MIter is a range over a map.
type MIter[K comparable, V any] struct {
	m  map[K]V
	ks []K
	i  int
}

// MapIter starts a range over a map.
func MapIter[M ~map[K]V, K comparable, V any](m M) *MIter[K, V] {
	return &MIter[K, V]{m: m, ks: MapKeys(m)}
}

// MapIterK also declares the key variable.
func MapIterK[M ~map[K]V, K comparable, V any](m M) (it *MIter[K, V], k K) {
	return MapIter(m), k
}

// MapIterV also declares the value variable.
func MapIterV[M ~map[K]V, K comparable, V any](m M) (it *MIter[K, V], v V) {
	return MapIter(m), v
}

// MapIterKV also declares both variables.
func MapIterKV[M ~map[K]V, K comparable, V any](m M) (it *MIter[K, V], k K, v V) {
	return MapIter(m), k, v
}

// Next moves to the next key that is still there.
func (it *MIter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.ks) {
		x := it.ks[it.i]
		it.i++
		if !MapGet(it.m, x, v) {
			continue
		}
		if k != nil {
			*k = x
		}
		return true
	}
	return false
}

// CIter is a range over a channel.
type CIter[T any] struct{ ch <-chan T }

// ChanIter starts a range over a channel.
func ChanIter[T any](ch <-chan T) *CIter[T] { return &CIter[T]{ch} }

// ChanIterV also declares the variable.
func ChanIterV[T any](ch <-chan T) (it *CIter[T], v T) { return &CIter[T]{ch}, v }

// Next receives the next value.
func (it *CIter[T]) Next(v *T) bool {
	x, ok := Recv2(it.ch)
	if ok && v != nil {
		*v = x
	}
	return ok
}
