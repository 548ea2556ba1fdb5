// Package simsync stands in for package sync in instrumented code: the same
// API, but waiting is a scheduling decision of the simulator. Each lock keeps
// a real lock inside (taken with TryLock), so the race detector still sees the
// happens-before edges the program really has.
package simsync

import (
	"fmt"
	"sort"
	"sync"
	"sync/atomic"

	"vsim.local/simrt"
)

type Locker = sync.Locker

type Mutex struct {
	mu sync.Mutex
	vc simrt.VC
}

func (m *Mutex) Lock() {
	simrt.SyncPoint()
	for !m.mu.TryLock() {
		simrt.Block()
	}
	m.vc.Acquire()
	simrt.SyncPoint()
}

func (m *Mutex) TryLock() bool {
	simrt.SyncPoint()
	if !m.mu.TryLock() {
		return false
	}
	m.vc.Acquire()
	return true
}

func (m *Mutex) Unlock() {
	simrt.SyncPoint()
	m.vc.Release()
	m.mu.Unlock()
	simrt.WakeAll()
	simrt.SyncPoint()
}

type RWMutex struct {
	mu   sync.RWMutex
	w, r simrt.VC // released by writers, by readers
}

func (m *RWMutex) Lock() {
	simrt.SyncPoint()
	for !m.mu.TryLock() {
		simrt.Block()
	}
	m.w.Acquire()
	m.r.Acquire()
	simrt.SyncPoint()
}

func (m *RWMutex) TryLock() bool {
	simrt.SyncPoint()
	if !m.mu.TryLock() {
		return false
	}
	m.w.Acquire()
	m.r.Acquire()
	return true
}

func (m *RWMutex) TryRLock() bool {
	simrt.SyncPoint()
	if !m.mu.TryRLock() {
		return false
	}
	m.w.Acquire()
	return true
}

func (m *RWMutex) Unlock() {
	simrt.SyncPoint()
	m.w.Release()
	m.mu.Unlock()
	simrt.WakeAll()
	simrt.SyncPoint()
}

func (m *RWMutex) RLock() {
	simrt.SyncPoint()
	for !m.mu.TryRLock() {
		simrt.Block()
	}
	m.w.Acquire()
	simrt.SyncPoint()
}

func (m *RWMutex) RUnlock() {
	simrt.SyncPoint()
	m.r.Release()
	m.mu.RUnlock()
	simrt.WakeAll()
	simrt.SyncPoint()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done atomic.Bool
	vc   simrt.VC
}

func (o *Once) Do(f func()) {
	simrt.SyncPoint()
	if o.done.Load() {
		o.vc.Acquire()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer func() { o.vc.Release(); o.done.Store(true) }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

type WaitGroup struct {
	mu sync.Mutex
	n  int
	vc simrt.VC
}

func (w *WaitGroup) Add(d int) {
	w.vc.Release()
	w.mu.Lock()
	w.n += d
	n := w.n
	w.mu.Unlock()
	if n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if n == 0 {
		simrt.WakeAll()
	}
	simrt.SyncPoint()
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	simrt.SyncPoint()
	for {
		w.mu.Lock()
		n := w.n
		w.mu.Unlock()
		if n == 0 {
			w.vc.Acquire()
			return
		}
		simrt.Block()
	}
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

// Pool hands items out and, as the real one may, forgets some of them: which
// ones is a decision of the simulator.
type Pool struct {
	New   func() any
	mu    sync.Mutex
	items []any
	vc    simrt.VC
}

func (p *Pool) Get() any {
	simrt.SyncPoint()
	p.mu.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.mu.Unlock()
		p.vc.Acquire()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	simrt.SyncPoint()
	if x == nil {
		return
	}
	p.vc.Release()
	p.mu.Lock()
	if len(p.items) < 8 {
		p.items = append(p.items, x)
	}
	p.mu.Unlock()
}

type Cond struct {
	L    Locker
	mu   sync.Mutex
	wait []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	woken := false
	c.mu.Lock()
	c.wait = append(c.wait, &woken)
	c.mu.Unlock()
	c.L.Unlock()
	for {
		c.mu.Lock()
		w := woken
		c.mu.Unlock()
		if w {
			break
		}
		simrt.Block()
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	c.mu.Lock()
	if len(c.wait) > 0 {
		*c.wait[0] = true
		c.wait = c.wait[1:]
	}
	c.mu.Unlock()
	simrt.WakeAll()
	simrt.SyncPoint()
}

func (c *Cond) Broadcast() {
	c.mu.Lock()
	for _, w := range c.wait {
		*w = true
	}
	c.wait = nil
	c.mu.Unlock()
	simrt.WakeAll()
	simrt.SyncPoint()
}

// Map is a sync.Map whose operations are scheduling points; each of them is
// taken to be ordered after all that came before it.
type Map struct {
	m  sync.Map
	vc simrt.VC
}

func (m *Map) on()  { simrt.SyncPoint(); m.vc.Release(); m.vc.Acquire() }
func (m *Map) off() { m.vc.Acquire(); simrt.WakeAll(); simrt.SyncPoint() }

func (m *Map) Load(k any) (any, bool)           { m.on(); defer m.off(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { m.on(); defer m.off(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { m.on(); defer m.off(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { m.on(); defer m.off(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { m.on(); defer m.off(); m.m.Delete(k) }
func (m *Map) Clear()                           { m.on(); defer m.off(); m.m.Clear() }
func (m *Map) Swap(k, v any) (any, bool)        { m.on(); defer m.off(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.on()
	defer m.off()
	return m.m.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.on()
	defer m.off()
	return m.m.CompareAndDelete(k, o)
}

// Range visits the keys in an order that depends on nothing but the keys.
func (m *Map) Range(f func(k, v any) bool) {
	m.on()
	type kv struct{ k, v any }
	var all []kv
	m.m.Range(func(k, v any) bool { all = append(all, kv{k, v}); return true })
	m.off()
	sort.SliceStable(all, func(i, j int) bool { return fmt.Sprint(all[i].k) < fmt.Sprint(all[j].k) })
	for _, e := range all {
		if !f(e.k, e.v) {
			return
		}
	}
}
