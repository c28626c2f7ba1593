// Package ssync stands in for package sync.
package ssync

import (
	"sync"
	"unsafe"

	"ecksbee.com/telefacts/vsim"
)

type Locker = sync.Locker

type Mutex struct{ st vsim.MutexState }

func (m *Mutex) Lock()         { m.st.Lock() }
func (m *Mutex) Unlock()       { m.st.Unlock() }
func (m *Mutex) TryLock() bool { return m.st.TryLock() }

type RWMutex struct{ st vsim.MutexState }

func (m *RWMutex) Lock()          { m.st.RWLock() }
func (m *RWMutex) Unlock()        { m.st.RWUnlock() }
func (m *RWMutex) RLock()         { m.st.RLock() }
func (m *RWMutex) RUnlock()       { m.st.RUnlock() }
func (m *RWMutex) TryLock() bool  { return m.st.TryLock() }
func (m *RWMutex) TryRLock() bool { return m.st.TryRLock() }
func (m *RWMutex) RLocker() Locker {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct{ st vsim.WGState }

func (g *WaitGroup) Add(n int) { g.st.Add(n) }
func (g *WaitGroup) Done()     { g.st.Add(-1) }
func (g *WaitGroup) Wait()     { g.st.Wait() }
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	vsim.Go("sync.WaitGroup.Go", func() {
		defer g.Done()
		f()
	})
}

type Once struct{ st vsim.OnceState }

func (o *Once) Do(f func()) { o.st.Do(f) }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

type Cond struct {
	L  Locker
	st vsim.CondState
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait()        { c.st.Wait(c.L.Unlock, c.L.Lock) }
func (c *Cond) Signal()      { c.st.Signal(false) }
func (c *Cond) Broadcast()   { c.st.Signal(true) }

// Pool never reuses nothing behind the program's back: it is a plain stack.
type Pool struct {
	New   func() any
	items []any
	tok   int64
}

//go:norace
func (p *Pool) Get() any {
	vsim.Yield()
	vsim.Acquire(unsafe.Pointer(&p.tok))
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	vsim.Yield()
	vsim.ReleaseMerge(unsafe.Pointer(&p.tok))
	p.items = append(p.items, x)
}

// Map wraps sync.Map with scheduling points and a chosen iteration order.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { vsim.Yield(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { vsim.Yield(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { vsim.Yield(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { vsim.Yield(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { vsim.Yield(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { vsim.Yield(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { vsim.Yield(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { vsim.Yield(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Clear()                           { vsim.Yield(); m.m.Clear() }
func (m *Map) Range(f func(k, v any) bool) {
	vsim.Yield()
	tmp := map[any]any{}
	m.m.Range(func(k, v any) bool { tmp[k] = v; return true })
	for _, e := range vsim.Entries(tmp) {
		if v, ok := m.m.Load(e.K()); ok {
			if !f(e.K(), v) {
				return
			}
		}
	}
}
