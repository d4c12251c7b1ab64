package verifnd

import (
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

// Models of the synchronisation primitives for one goroutine, used by the
// symbolic engine. Every operation is a point where another call may come in
// between (see Interfere).

var interference func()

// Interfere lets f run once, at a point of the schedule of the solver's
// choice, while body is running: before or after one of its operations on
// atomic variables, locks, pools and maps. (Between two of them, code that is
// free of data races cannot tell the difference.)
func Interfere(body, f func()) {
	interference = f
	body()
	interference = nil
}

// Stress calls both functions concurrently, many times, and fails if one of
// them ever returns false.
func Stress(f, g func() bool, label string) {
	var wg sync.WaitGroup
	var bad atomic.Bool
	end := time.Now().Add(4 * time.Second)
	for i := 0; i < 8; i++ {
		h := f
		if i%2 == 1 {
			h = g
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !bad.Load() && time.Now().Before(end) {
				for k := 0; k < 5000; k++ {
					if !h() {
						bad.Store(true)
						return
					}
				}
			}
		}()
	}
	wg.Wait()
	if bad.Load() {
		res.Failed = append(res.Failed, label)
	}
}

var yields int

// held is the number of locks held: a call that needs one of them waits.
var held int

func yield() {
	if interference == nil || held > 0 {
		return
	}
	yields++
	if Split("preempt", yields, 0, 1) == 1 {
		f := interference
		interference = nil
		f()
	}
}

func AtomicLoad32(p *uint32) uint32 { yield(); return *p }
func AtomicLoad64(p *uint64) uint64 { yield(); return *p }
func AtomicLoadS32(p *int32) int32  { yield(); return *p }
func AtomicLoadS64(p *int64) int64  { yield(); return *p }
func AtomicLoadPtr(p *unsafe.Pointer) unsafe.Pointer {
	yield()
	return *p
}
func AtomicStore32(p *uint32, v uint32) { yield(); *p = v }
func AtomicStore64(p *uint64, v uint64) { yield(); *p = v }
func AtomicStoreS32(p *int32, v int32)  { yield(); *p = v }
func AtomicStoreS64(p *int64, v int64)  { yield(); *p = v }
func AtomicStorePtr(p *unsafe.Pointer, v unsafe.Pointer) {
	yield()
	*p = v
}
func AtomicAdd32(p *uint32, d uint32) uint32 { yield(); *p += d; return *p }
func AtomicAdd64(p *uint64, d uint64) uint64 { yield(); *p += d; return *p }
func AtomicAddS32(p *int32, d int32) int32   { yield(); *p += d; return *p }
func AtomicAddS64(p *int64, d int64) int64   { yield(); *p += d; return *p }
func AtomicSwap32(p *uint32, v uint32) uint32 {
	yield()
	o := *p
	*p = v
	return o
}
func AtomicSwap64(p *uint64, v uint64) uint64 {
	yield()
	o := *p
	*p = v
	return o
}
func AtomicSwapS32(p *int32, v int32) int32 {
	yield()
	o := *p
	*p = v
	return o
}
func AtomicSwapS64(p *int64, v int64) int64 {
	yield()
	o := *p
	*p = v
	return o
}
func AtomicSwapPtr(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	yield()
	o := *p
	*p = v
	return o
}
func AtomicCAS32(p *uint32, o, v uint32) bool {
	yield()
	if *p != o {
		return false
	}
	*p = v
	return true
}
func AtomicCAS64(p *uint64, o, v uint64) bool {
	yield()
	if *p != o {
		return false
	}
	*p = v
	return true
}
func AtomicCASS32(p *int32, o, v int32) bool {
	yield()
	if *p != o {
		return false
	}
	*p = v
	return true
}
func AtomicCASS64(p *int64, o, v int64) bool {
	yield()
	if *p != o {
		return false
	}
	*p = v
	return true
}
func AtomicCASPtr(p *unsafe.Pointer, o, v unsafe.Pointer) bool {
	yield()
	if *p != o {
		return false
	}
	*p = v
	return true
}

var atomicValues = map[*atomic.Value]any{}

func AtomicValueLoad(p *atomic.Value) any { yield(); return atomicValues[p] }
func AtomicValueStore(p *atomic.Value, v any) {
	yield()
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	atomicValues[p] = v
}
func AtomicValueSwap(p *atomic.Value, v any) any {
	yield()
	o := atomicValues[p]
	atomicValues[p] = v
	return o
}
func AtomicValueCAS(p *atomic.Value, o, v any) bool {
	yield()
	if atomicValues[p] != o {
		return false
	}
	atomicValues[p] = v
	return true
}

func Lock(*sync.Mutex)             { yield(); held++ }
func Unlock(*sync.Mutex)           { held--; yield() }
func TryLock(*sync.Mutex) bool     { yield(); held++; return true }
func RWLock(*sync.RWMutex)         { yield(); held++ }
func RWUnlock(*sync.RWMutex)       { held--; yield() }
func RWRLock(*sync.RWMutex)        { yield(); held++ }
func RWRUnlock(*sync.RWMutex)      { held--; yield() }
func RWTryLock(*sync.RWMutex) bool { yield(); held++; return true }

var onces = map[*sync.Once]bool{}

func OnceDo(o *sync.Once, f func()) {
	yield()
	if !onces[o] {
		held++
		onces[o] = true
		f()
		held--
	}
}

// A pool gives back what was put into it last.
var pools = map[*sync.Pool][]any{}

func PoolGet(p *sync.Pool) any {
	yield()
	l := pools[p]
	if n := len(l); n > 0 {
		x := l[n-1]
		pools[p] = l[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func PoolPut(p *sync.Pool, x any) {
	if x != nil {
		pools[p] = append(pools[p], x)
	}
	yield()
}

var maps = map[*sync.Map]map[any]any{}

func mapOf(m *sync.Map) map[any]any {
	yield()
	r := maps[m]
	if r == nil {
		r = map[any]any{}
		maps[m] = r
	}
	return r
}

func MapLoad(m *sync.Map, k any) (any, bool) {
	v, ok := mapOf(m)[k]
	return v, ok
}
func MapStore(m *sync.Map, k, v any) { mapOf(m)[k] = v }
func MapClear(m *sync.Map)           { clear(mapOf(m)) }
func MapDelete(m *sync.Map, k any)   { delete(mapOf(m), k) }
func MapLoadOrStore(m *sync.Map, k, v any) (any, bool) {
	x := mapOf(m)
	if o, ok := x[k]; ok {
		return o, true
	}
	x[k] = v
	return v, false
}
func MapLoadAndDelete(m *sync.Map, k any) (any, bool) {
	x := mapOf(m)
	o, ok := x[k]
	delete(x, k)
	return o, ok
}
func MapSwap(m *sync.Map, k, v any) (any, bool) {
	x := mapOf(m)
	o, ok := x[k]
	x[k] = v
	return o, ok
}
func MapCompareAndSwap(m *sync.Map, k, o, v any) bool {
	x := mapOf(m)
	if c, ok := x[k]; !ok || c != o {
		return false
	}
	x[k] = v
	return true
}
func MapRange(m *sync.Map, f func(k, v any) bool) {
	for k, v := range mapOf(m) {
		if !f(k, v) {
			return
		}
	}
}
