// Package simsync replaces package sync in instrumented code.
package simsync

import (
	"sync"

	"github.com/DataDog/orchestrion/internal/verifsim/sim"
)

// Mutex replaces sync.Mutex.
type Mutex struct {
	real   sync.Mutex
	locked bool
	q      sim.WaitQueue
}

func (m *Mutex) Lock() {
	if !sim.Managed() {
		m.real.Lock()
		return
	}
	sim.Point()
	for m.locked {
		if !sim.Block(&m.q, "mutex") {
			return // being killed
		}
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	if !sim.Managed() {
		return m.real.TryLock()
	}
	sim.Point()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if !sim.Managed() {
		m.real.Unlock()
		return
	}
	if !m.locked {
		if sim.Unwinding() {
			return
		}
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.q.WakeAll(sim.Active())
	sim.Point()
}

// RWMutex replaces sync.RWMutex (writers are preferred, like the original).
type RWMutex struct {
	real    sync.RWMutex
	writer  bool
	readers int
	waiting int // waiting writers
	q       sim.WaitQueue
}

func (m *RWMutex) Lock() {
	if !sim.Managed() {
		m.real.Lock()
		return
	}
	sim.Point()
	m.waiting++
	for m.writer || m.readers > 0 {
		if !sim.Block(&m.q, "rwmutex (write)") {
			m.waiting--
			return
		}
	}
	m.waiting--
	m.writer = true
}

func (m *RWMutex) TryLock() bool {
	if !sim.Managed() {
		return m.real.TryLock()
	}
	sim.Point()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	if !sim.Managed() {
		m.real.Unlock()
		return
	}
	if !m.writer {
		if sim.Unwinding() {
			return
		}
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.q.WakeAll(sim.Active())
	sim.Point()
}

func (m *RWMutex) RLock() {
	if !sim.Managed() {
		m.real.RLock()
		return
	}
	sim.Point()
	for m.writer || m.waiting > 0 {
		if !sim.Block(&m.q, "rwmutex (read)") {
			return
		}
	}
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	if !sim.Managed() {
		return m.real.TryRLock()
	}
	sim.Point()
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	if !sim.Managed() {
		m.real.RUnlock()
		return
	}
	if m.readers == 0 {
		if sim.Unwinding() {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.q.WakeAll(sim.Active())
	sim.Point()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker backed by the read side.
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

// Once replaces sync.Once.
type Once struct {
	real sync.Once
	mu   Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if !sim.Managed() {
		o.real.Do(func() { o.done = true; f() })
		return
	}
	sim.Point()
	if o.done {
		return
	}
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc replaces sync.OnceFunc.
func OnceFunc(f func()) func() {
	var (
		once  Once
		valid bool
		p     any
	)
	return func() {
		once.Do(func() {
			defer func() {
				p = recover()
				if !valid {
					panic(p)
				}
			}()
			f()
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

// OnceValue replaces sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var v T
	once := OnceFunc(func() { v = f() })
	return func() T { once(); return v }
}

// OnceValues replaces sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var (
		v1 T1
		v2 T2
	)
	once := OnceFunc(func() { v1, v2 = f() })
	return func() (T1, T2) { once(); return v1, v2 }
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	real sync.WaitGroup
	n    int
	q    sim.WaitQueue
}

func (wg *WaitGroup) Add(delta int) {
	if !sim.Managed() {
		wg.real.Add(delta)
		return
	}
	sim.Point()
	wg.n += delta
	if wg.n < 0 {
		if sim.Unwinding() {
			return
		}
		panic("sync: negative WaitGroup counter")
	}
	if wg.n == 0 {
		wg.q.WakeAll(sim.Active())
	}
}

func (wg *WaitGroup) Done() { wg.Add(-1) }

func (wg *WaitGroup) Wait() {
	if !sim.Managed() {
		wg.real.Wait()
		return
	}
	sim.Point()
	for wg.n > 0 {
		if !sim.Block(&wg.q, "wait group") {
			return
		}
	}
}

func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	sim.Go(func() {
		defer wg.Done()
		f()
	})
}

// Cond replaces sync.Cond.
type Cond struct {
	L    sync.Locker
	real *sync.Cond
	q    sim.WaitQueue
	ws   []*waiter
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

func (c *Cond) Wait() {
	if !sim.Managed() {
		c.real.Wait()
		return
	}
	// Registering on the queue and releasing the lock must be atomic.
	t := &waiter{}
	c.pending(t)
	c.L.Unlock()
	for !t.signaled {
		if !sim.Block(&c.q, "cond") {
			break
		}
	}
	c.L.Lock()
}

type waiter struct{ signaled bool }

func (c *Cond) pending(t *waiter) { c.ws = append(c.ws, t) }

func (c *Cond) Signal() {
	if !sim.Managed() {
		c.real.Signal()
		return
	}
	ws := c.ws
	if len(ws) > 0 {
		i := sim.Active().Choose(len(ws))
		ws[i].signaled = true
		c.ws = append(append([]*waiter(nil), ws[:i]...), ws[i+1:]...)
		c.q.WakeAll(sim.Active())
	}
	sim.Point()
}

func (c *Cond) Broadcast() {
	if !sim.Managed() {
		c.real.Broadcast()
		return
	}
	for _, w := range c.ws {
		w.signaled = true
	}
	c.ws = nil
	c.q.WakeAll(sim.Active())
	sim.Point()
}

// Pool replaces sync.Pool: which pooled object Get returns (if any) is decided
// by the scheduler.
type Pool struct {
	New   func() any
	real  sync.Pool
	items []any
	world *sim.World
}

func (p *Pool) Get() any {
	w := sim.Active()
	if !sim.Managed() {
		if v := p.real.Get(); v != nil {
			return v
		}
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	sim.Point()
	if p.world != w {
		p.items, p.world = nil, w
	}
	if n := len(p.items); n > 0 {
		// 0: the most recently released object; n: a new object.
		i := w.Choose(n + 1)
		if i < n {
			i = n - 1 - i
			v := p.items[i]
			p.items = append(append([]any(nil), p.items[:i]...), p.items[i+1:]...)
			w.Count("pool-reuse")
			return v
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	if !sim.Managed() {
		p.real.Put(v)
		return
	}
	w := sim.Active()
	if p.world != w {
		p.items, p.world = nil, w
	}
	p.items = append(p.items, v)
	sim.Point()
}

// Map replaces sync.Map.
type Map struct {
	mu   sync.Mutex
	data map[any]any
	keys []any
}

func (m *Map) enter() func() {
	sim.Point()
	m.mu.Lock()
	return m.mu.Unlock
}

func (m *Map) set(k, v any) {
	if m.data == nil {
		m.data = map[any]any{}
	}
	if _, ok := m.data[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.data[k] = v
}

func (m *Map) del(k any) {
	if _, ok := m.data[k]; !ok {
		return
	}
	delete(m.data, k)
	for i, o := range m.keys {
		if o == k {
			m.keys = append(append([]any(nil), m.keys[:i]...), m.keys[i+1:]...)
			break
		}
	}
}

func (m *Map) Load(k any) (any, bool) {
	defer m.enter()()
	v, ok := m.data[k]
	return v, ok
}

func (m *Map) Store(k, v any) {
	defer m.enter()()
	m.set(k, v)
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	defer m.enter()()
	if old, ok := m.data[k]; ok {
		return old, true
	}
	m.set(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	defer m.enter()()
	v, ok := m.data[k]
	m.del(k)
	return v, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) Swap(k, v any) (any, bool) {
	defer m.enter()()
	old, ok := m.data[k]
	m.set(k, v)
	return old, ok
}

func (m *Map) CompareAndSwap(k, old, v any) bool {
	defer m.enter()()
	cur, ok := m.data[k]
	if !ok || cur != old {
		return false
	}
	m.set(k, v)
	return true
}

func (m *Map) CompareAndDelete(k, old any) bool {
	defer m.enter()()
	cur, ok := m.data[k]
	if !ok || cur != old {
		return false
	}
	m.del(k)
	return true
}

func (m *Map) Clear() {
	defer m.enter()()
	m.data, m.keys = nil, nil
}

func (m *Map) Range(f func(k, v any) bool) {
	unlock := m.enter()
	keys := append([]any(nil), m.keys...)
	unlock()
	if w := sim.Active(); w != nil && sim.Managed() {
		perm := w.Perm(len(keys))
		shuffled := make([]any, len(keys))
		for i, j := range perm {
			shuffled[i] = keys[j]
		}
		keys = shuffled
	}
	for _, k := range keys {
		v, ok := m.Load(k)
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}
