// Cooperative sync: every blocking operation is a poll under the simulated
// scheduler; the real primitive underneath provides the happens-before edges.
package sync

import (
	real "sync"

	"github.com/pandatix/go-abnf/zsim/simrt"
)

type Locker = real.Locker

type Mutex struct{ m real.Mutex }

func (m *Mutex) Lock() {
	simrt.Y()
	for !m.m.TryLock() {
		simrt.Block()
	}
	simrt.Progress()
}
func (m *Mutex) TryLock() bool { simrt.Y(); return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock(); simrt.Progress(); simrt.Y() }

type RWMutex struct{ m real.RWMutex }

func (m *RWMutex) Lock() {
	simrt.Y()
	for !m.m.TryLock() {
		simrt.Block()
	}
	simrt.Progress()
}
func (m *RWMutex) TryLock() bool { simrt.Y(); return m.m.TryLock() }
func (m *RWMutex) Unlock()       { m.m.Unlock(); simrt.Progress(); simrt.Y() }
func (m *RWMutex) RLock() {
	simrt.Y()
	for !m.m.TryRLock() {
		simrt.Block()
	}
	simrt.Progress()
}
func (m *RWMutex) TryRLock() bool { simrt.Y(); return m.m.TryRLock() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock(); simrt.Progress(); simrt.Y() }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	var valid bool
	var p any
	return func() {
		o.Do(func() {
			defer func() {
				p = recover()
				if !valid {
					panic(p)
				}
			}()
			f()
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var v T
	g := OnceFunc(func() { v = f() })
	return func() T { g(); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var a T1
	var b T2
	g := OnceFunc(func() { a, b = f() })
	return func() (T1, T2) { g(); return a, b }
}

type WaitGroup struct {
	m Mutex
	n int
}

func (w *WaitGroup) Add(d int) {
	w.m.Lock()
	w.n += d
	n := w.n
	w.m.Unlock()
	if n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	for {
		w.m.Lock()
		n := w.n
		w.m.Unlock()
		if n == 0 {
			return
		}
		simrt.Block()
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

// Pool hands back the most recently put value: legal, and the strongest test of
// code that keeps using what it has put back.
type Pool struct {
	New func() any
	m   Mutex
	s   []any
}

func (p *Pool) Get() any {
	p.m.Lock()
	var v any
	if n := len(p.s); n > 0 {
		v = p.s[n-1]
		p.s = p.s[:n-1]
	}
	p.m.Unlock()
	if v == nil && p.New != nil {
		v = p.New()
	}
	return v
}
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.s = append(p.s, x)
	p.m.Unlock()
}

type Map struct {
	mu Mutex
	m  map[any]any
}

func (m *Map) Load(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v any) { m.Swap(k, v) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.m == nil {
		m.m = map[any]any{}
	}
	p, ok := m.m[k]
	m.m[simrt.T(k)] = v
	return p, ok
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if p, ok := m.m[k]; ok {
		return p, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[simrt.T(k)] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	p, ok := m.m[k]
	delete(m.m, k)
	return p, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if p, ok := m.m[k]; ok && p == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if p, ok := m.m[k]; ok && p == o {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Clear() {
	m.mu.Lock()
	m.m = nil
	m.mu.Unlock()
}
func (m *Map) Range(f func(k, v any) bool) {
	m.mu.Lock()
	c := map[any]any{}
	for k, v := range m.m {
		c[k] = v
	}
	m.mu.Unlock()
	for k, v := range simrt.Range(8010, c) {
		if !f(k, v) {
			return
		}
	}
}

type Cond struct {
	L Locker
	m Mutex
	n int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	c.m.Lock()
	g := c.n
	c.m.Unlock()
	c.L.Unlock()
	for {
		c.m.Lock()
		w := c.n != g
		c.m.Unlock()
		if w {
			break
		}
		simrt.Block()
	}
	c.L.Lock()
}
func (c *Cond) Signal()    { c.Broadcast() }
func (c *Cond) Broadcast() { c.m.Lock(); c.n++; c.m.Unlock() }
