package vsched

import (
	"sync"
	"sync/atomic"
	"unsafe"
)

type Locker = sync.Locker

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock()         { Point("lock"); m.mu.Lock() }
func (m *Mutex) Unlock()       { m.mu.Unlock() }
func (m *Mutex) TryLock() bool { return m.mu.TryLock() }

type RWMutex struct {
	mu      sync.RWMutex
	readers int
}

//go:norace
func (m *RWMutex) add(n int) int {
	m.readers += n
	return m.readers
}

//go:norace
func (m *RWMutex) held() bool { return !free && multi && m.readers > 0 }

func (m *RWMutex) Lock() {
	Point("rwlock")
	if m.held() {
		Point("rwlock-wait")
	}
	m.mu.Lock()
}
func (m *RWMutex) Unlock()        { m.mu.Unlock() }
func (m *RWMutex) RLock()         { Point("rlock"); m.mu.RLock(); m.add(1) }
func (m *RWMutex) RUnlock()       { m.add(-1); m.mu.RUnlock() }
func (m *RWMutex) TryLock() bool  { return m.mu.TryLock() }
func (m *RWMutex) TryRLock() bool { return m.mu.TryRLock() }
func (m *RWMutex) RLocker() Locker {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct{ wg sync.WaitGroup }

func (w *WaitGroup) Add(n int) {
	if n > 0 {
		Point("wg-add")
	}
	w.wg.Add(n)
}
func (w *WaitGroup) Done() { w.wg.Done() }
func (w *WaitGroup) Wait() { Point("wg-wait"); w.wg.Wait() }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	h := NewG()
	go func() {
		defer Exit(h)
		Enter(h)
		defer w.Done()
		f()
	}()
}

// Once follows the standard library's step by step.
type Once struct {
	done ABool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if !o.done.Load() {
		o.doSlow(f)
	}
}

func (o *Once) doSlow(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

const pa = "atomic"

type ABool struct{ v atomic.Bool }

func (x *ABool) Load() bool       { Point(pa); return x.v.Load() }
func (x *ABool) Store(b bool)     { Point(pa); x.v.Store(b) }
func (x *ABool) Swap(b bool) bool { Point(pa); return x.v.Swap(b) }
func (x *ABool) CompareAndSwap(o, n bool) bool {
	Point(pa)
	return x.v.CompareAndSwap(o, n)
}

type APointer[T any] struct{ v atomic.Pointer[T] }

func (x *APointer[T]) Load() *T     { Point(pa); return x.v.Load() }
func (x *APointer[T]) Store(p *T)   { Point(pa); x.v.Store(p) }
func (x *APointer[T]) Swap(p *T) *T { Point(pa); return x.v.Swap(p) }
func (x *APointer[T]) CompareAndSwap(o, n *T) bool {
	Point(pa)
	return x.v.CompareAndSwap(o, n)
}

type AValue struct{ v atomic.Value }

func (x *AValue) Load() any      { Point(pa); return x.v.Load() }
func (x *AValue) Store(v any)    { Point(pa); x.v.Store(v) }
func (x *AValue) Swap(v any) any { Point(pa); return x.v.Swap(v) }
func (x *AValue) CompareAndSwap(o, n any) bool {
	Point(pa)
	return x.v.CompareAndSwap(o, n)
}

func ALoadPointer(a *unsafe.Pointer) unsafe.Pointer     { Point(pa); return atomic.LoadPointer(a) }
func AStorePointer(a *unsafe.Pointer, v unsafe.Pointer) { Point(pa); atomic.StorePointer(a, v) }
func ASwapPointer(a *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	Point(pa)
	return atomic.SwapPointer(a, v)
}
func ACompareAndSwapPointer(a *unsafe.Pointer, o, n unsafe.Pointer) bool {
	Point(pa)
	return atomic.CompareAndSwapPointer(a, o, n)
}
