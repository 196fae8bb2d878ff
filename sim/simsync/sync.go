// Package sync replaces the standard sync package in the code under test, so
// that locks block on the simulated scheduler.
package sync

import (
	realsync "sync"

	"verifsim/simrt"
)

type Locker = realsync.Locker

type Mutex struct {
	gen     uint64
	held    bool
	waiters []*simrt.Task
}

func (m *Mutex) fresh() {
	if m.gen != simrt.Gen() {
		m.gen, m.held, m.waiters = simrt.Gen(), false, nil
	}
}

func (m *Mutex) Lock() {
	simrt.Lib()

	m.fresh()
	for m.held {
		if !simrt.Active() {
			panic("lock held outside a simulation")
		}
		m.waiters = append(m.waiters, simrt.Current())
		simrt.Block()
	}
	m.held = true
}

func (m *Mutex) TryLock() bool {
	m.fresh()
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	defer simrt.Lib()
	m.fresh()
	if !m.held {
		if simrt.Crashing() {
			return
		}
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	ws := m.waiters
	m.waiters = nil
	for _, w := range ws {
		simrt.Unblock(w)
	}
}

type RWMutex struct {
	gen     uint64
	w       bool
	r       int
	waiters []*simrt.Task
}

func (m *RWMutex) fresh() {
	if m.gen != simrt.Gen() {
		m.gen, m.w, m.r, m.waiters = simrt.Gen(), false, 0, nil
	}
}

func (m *RWMutex) wait() {
	if !simrt.Active() {
		panic("lock held outside a simulation")
	}
	m.waiters = append(m.waiters, simrt.Current())
	simrt.Block()
}

func (m *RWMutex) wake() {
	ws := m.waiters
	m.waiters = nil
	for _, w := range ws {
		simrt.Unblock(w)
	}
}

func (m *RWMutex) Lock() {
	simrt.Lib()

	m.fresh()
	for m.w || m.r > 0 {
		m.wait()
	}
	m.w = true
}

func (m *RWMutex) Unlock() {
	defer simrt.Lib()
	m.fresh()
	if !m.w && !simrt.Crashing() {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.wake()
}

func (m *RWMutex) RLock() {
	simrt.Lib()

	m.fresh()
	for m.w {
		m.wait()
	}
	m.r++
}

func (m *RWMutex) RUnlock() {
	m.fresh()
	if m.r == 0 {
		if simrt.Crashing() {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	m.wake()
}

func (m *RWMutex) TryLock() bool {
	m.fresh()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) TryRLock() bool {
	m.fresh()
	if m.w {
		return false
	}
	m.r++
	return true
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	simrt.Lib()

	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

type WaitGroup struct {
	n       int
	waiters []*simrt.Task
}

func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		ws := w.waiters
		w.waiters = nil
		for _, t := range ws {
			simrt.Unblock(t)
		}
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	for w.n > 0 {
		w.waiters = append(w.waiters, simrt.Current())
		simrt.Block()
	}
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

type Cond struct {
	L       Locker
	waiters []*simrt.Task
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.waiters = append(c.waiters, simrt.Current())
	c.L.Unlock()
	simrt.Block()
	c.L.Lock()
}

func (c *Cond) Signal() {
	if len(c.waiters) > 0 {
		w := c.waiters[0]
		c.waiters = c.waiters[1:]
		simrt.Unblock(w)
	}
}

func (c *Cond) Broadcast() {
	for len(c.waiters) > 0 {
		c.Signal()
	}
}

// Pool hands out the most recently returned object: legal, deterministic and
// the choice most likely to expose an object used after Put.
type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Get() interface{} {
	simrt.Lib()

	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	simrt.Lib()

	if x != nil {
		p.items = append(p.items, x)
	}
}

// Map: insertion ordered, deterministic Range.
type Map struct {
	keys []interface{}
	m    map[interface{}]interface{}
}

func (m *Map) Load(k interface{}) (interface{}, bool) { simrt.Lib(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v interface{}) {
	simrt.Lib()

	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.Store(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	v, ok := m.m[k]
	m.Delete(k)
	return v, ok
}
func (m *Map) Delete(k interface{}) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	for _, k := range append([]interface{}(nil), m.keys...) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}
