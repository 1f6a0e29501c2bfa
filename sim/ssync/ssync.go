// Package ssync replaces package sync. It is compiled without race instrumentation; the
// happens-before edges are announced exactly where package sync announces them.
package ssync

import (
	"unsafe"

	"verif.local/vsim/core"
)

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is sync.Mutex: unlock lets the first waiter compete with newcomers; a waiter that lost
// several times gets the lock handed over.
type Mutex struct {
	locked  bool
	handoff bool
	starved int
	q       core.WaitQ
}

func (m *Mutex) acquired() { core.RaceAcquire(unsafe.Pointer(m)) }

func (m *Mutex) Lock() {
	core.Yield()
	if core.Recording() {
		core.Event("lock")
	}
	m.lock()
}

func (m *Mutex) lock() {
	tries := 0
	for m.locked {
		if core.Dying() {
			core.Exit()
		}
		if tries > 4 {
			m.starved++
		}
		m.q.Wait("mutex lock")
		if tries > 4 {
			m.starved--
		}
		if m.handoff {
			m.handoff = false
			m.acquired()
			return
		}
		tries++
	}
	m.locked = true
	m.acquired()
}

func (m *Mutex) TryLock() bool {
	core.Yield()
	if m.locked {
		return false
	}
	m.locked = true
	m.acquired()
	return true
}

func (m *Mutex) Unlock() {
	core.Yield()
	if core.Recording() {
		core.Event("unlock")
	}
	m.unlock()
}

func (m *Mutex) unlock() {
	if !m.locked {
		core.Fatal("sync: unlock of unlocked mutex")
	}
	core.RaceRelease(unsafe.Pointer(m))
	if m.starved > 0 && !core.Dying() {
		if m.q.WakeOne() {
			m.handoff = true
			return
		}
	}
	m.locked = false
	m.q.WakeOne()
}

// RWMutex is sync.RWMutex: a waiting writer blocks new readers.
type RWMutex struct {
	w       Mutex
	pending bool
	readers int
	wq      core.WaitQ
	rq      core.WaitQ
	rsem    [1]byte
	wsem    [1]byte
}

func (m *RWMutex) racq() { core.RaceAcquire(unsafe.Pointer(&m.rsem)) }

func (m *RWMutex) RLock() {
	core.Yield()
	if core.Recording() {
		core.Event("rlock")
	}
	if m.pending {
		if core.Dying() {
			core.Exit()
		}
		m.rq.Wait("rwmutex rlock") // admitted by Unlock
	} else {
		m.readers++
	}
	m.racq()
}

func (m *RWMutex) TryRLock() bool {
	core.Yield()
	if m.pending {
		return false
	}
	m.readers++
	m.racq()
	return true
}

func (m *RWMutex) RUnlock() {
	core.Yield()
	if core.Recording() {
		core.Event("runlock")
	}
	if m.readers == 0 {
		core.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	core.RaceReleaseMerge(unsafe.Pointer(&m.wsem))
	m.readers--
	if m.readers == 0 && m.pending {
		m.wq.WakeOne()
	}
}

func (m *RWMutex) Lock() {
	core.Yield()
	if core.Recording() {
		core.Event("wlock")
	}
	m.w.lock()
	m.pending = true
	for m.readers > 0 {
		if core.Dying() {
			core.Exit()
		}
		m.wq.Wait("rwmutex lock")
	}
	m.racq()
	core.RaceAcquire(unsafe.Pointer(&m.wsem))
}

func (m *RWMutex) TryLock() bool {
	core.Yield()
	if m.w.locked || m.readers > 0 {
		return false
	}
	m.w.locked = true
	m.w.acquired()
	m.pending = true
	m.racq()
	core.RaceAcquire(unsafe.Pointer(&m.wsem))
	return true
}

func (m *RWMutex) Unlock() {
	core.Yield()
	if core.Recording() {
		core.Event("wunlock")
	}
	if !m.pending || m.readers > 0 {
		core.Fatal("sync: Unlock of unlocked RWMutex")
	}
	core.RaceRelease(unsafe.Pointer(&m.rsem))
	m.pending = false
	m.readers += m.rq.Len()
	m.rq.WakeAll()
	m.w.unlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n    int
	q    core.WaitQ
	sema [1]byte
}

func (wg *WaitGroup) Add(delta int) {
	core.Yield()
	if core.Recording() {
		core.Event("wg.add")
	}
	if delta < 0 {
		core.RaceReleaseMerge(unsafe.Pointer(wg))
	}
	wg.n += delta
	if delta > 0 && wg.n == delta {
		core.RaceRead(unsafe.Pointer(&wg.sema))
	}
	if wg.n < 0 {
		if core.Dying() {
			wg.n = 0
			return
		}
		panic("sync: negative WaitGroup counter")
	}
	if wg.q.Len() > 0 && delta > 0 && wg.n == delta {
		panic("sync: WaitGroup misuse: Add called concurrently with Wait")
	}
	if wg.n == 0 {
		wg.q.WakeAll()
	}
}

func (wg *WaitGroup) Done() { wg.Add(-1) }

func (wg *WaitGroup) Wait() {
	core.Yield()
	if core.Recording() {
		core.Event("wg.wait")
	}
	if wg.n == 0 {
		core.RaceAcquire(unsafe.Pointer(wg))
		return
	}
	if core.Dying() {
		core.Exit()
	}
	if wg.q.Len() == 0 {
		core.RaceWrite(unsafe.Pointer(&wg.sema))
	}
	wg.q.Wait("waitgroup wait")
	if wg.n != 0 {
		panic("sync: WaitGroup is reused before previous Wait has returned")
	}
	core.RaceAcquire(unsafe.Pointer(wg))
}

// Go is sync.WaitGroup.Go.
func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	core.Go("WaitGroup.Go", func() {
		defer wg.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	core.Yield()
	if o.done {
		core.RaceAcquire(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			core.RaceRelease(unsafe.Pointer(o))
			o.done = true
		}()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var once Once
	var valid bool
	var p interface{}
	return func() {
		once.Do(func() {
			defer func() {
				p = recover()
				if !valid {
					panic(p)
				}
			}()
			f()
			f = nil
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

// OnceValues is sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var a A
	var b B
	g := OnceFunc(func() { a, b = f() })
	return func() (A, B) { g(); return a, b }
}

// Cond is sync.Cond.
type Cond struct {
	L Locker
	q []*condWaiter
}

type condWaiter struct {
	signaled bool
	q        core.WaitQ
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	x := &condWaiter{}
	c.q = append(c.q, x)
	c.L.Unlock()
	if !x.signaled {
		x.q.Wait("cond wait")
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	core.Yield()
	n := len(c.q)
	if n == 0 {
		return
	}
	x := c.q[0]
	for i := 0; i+1 < n; i++ {
		c.q[i] = c.q[i+1]
	}
	c.q[n-1] = nil
	c.q = c.q[:n-1]
	x.signaled = true
	x.q.WakeOne()
}

func (c *Cond) Broadcast() {
	core.Yield()
	q := c.q
	c.q = nil
	for i := range q {
		q[i].signaled = true
		q[i].q.WakeOne()
	}
}

// Pool is sync.Pool with losses: a put may be dropped and a get may miss, as when the collector
// clears the pool or the goroutine moved to another processor.
type Pool struct {
	New   func() interface{}
	items []poolItem
}

type poolItem struct {
	v interface{}
	s *[1]byte
}

func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	core.Yield()
	if core.Flip(core.PoolDrop()) {
		core.Count("fault.pool_drop")
		return
	}
	s := new([1]byte)
	core.RaceRelease(unsafe.Pointer(s))
	p.items = append(p.items, poolItem{x, s})
}

func (p *Pool) Get() interface{} {
	core.Yield()
	if n := len(p.items); n > 0 {
		if core.Flip(core.PoolDrop()) {
			core.Count("fault.pool_miss")
		} else {
			i := n - 1 - core.Choose(n)
			it := p.items[i]
			for ; i+1 < n; i++ {
				p.items[i] = p.items[i+1]
			}
			p.items[n-1] = poolItem{}
			p.items = p.items[:n-1]
			core.RaceAcquire(unsafe.Pointer(it.s))
			core.Count("pool_hit")
			return it.v
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Map is sync.Map as one atomic object.
type Map struct {
	kv []kvPair
}

type kvPair struct{ k, v interface{} }

func (m *Map) in() int {
	core.Yield()
	core.RaceAcquire(unsafe.Pointer(m))
	return 0
}

func (m *Map) out() { core.RaceReleaseMerge(unsafe.Pointer(m)) }

func (m *Map) find(k interface{}) int {
	for i := range m.kv {
		if m.kv[i].k == k {
			return i
		}
	}
	return -1
}

func (m *Map) del(i int) {
	n := len(m.kv)
	for ; i+1 < n; i++ {
		m.kv[i] = m.kv[i+1]
	}
	m.kv[n-1] = kvPair{}
	m.kv = m.kv[:n-1]
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.in()
	if i := m.find(k); i >= 0 {
		return m.kv[i].v, true
	}
	return nil, false
}

func (m *Map) Store(k, v interface{}) { m.Swap(k, v) }

func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.in()
	defer m.out()
	if i := m.find(k); i >= 0 {
		old := m.kv[i].v
		m.kv[i].v = v
		return old, true
	}
	m.kv = append(m.kv, kvPair{k, v})
	return nil, false
}

func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.in()
	defer m.out()
	if i := m.find(k); i >= 0 {
		return m.kv[i].v, true
	}
	m.kv = append(m.kv, kvPair{k, v})
	return v, false
}

func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.in()
	defer m.out()
	if i := m.find(k); i >= 0 {
		v := m.kv[i].v
		m.del(i)
		return v, true
	}
	return nil, false
}

func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }

func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	m.in()
	defer m.out()
	if i := m.find(k); i >= 0 && m.kv[i].v == o {
		m.kv[i].v = n
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, o interface{}) bool {
	m.in()
	defer m.out()
	if i := m.find(k); i >= 0 && m.kv[i].v == o {
		m.del(i)
		return true
	}
	return false
}

func (m *Map) Clear() {
	m.in()
	defer m.out()
	m.kv = nil
}

// Range visits a snapshot of the keys with their values at the time of the visit.
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.in()
	var ks []interface{}
	for i := range m.kv {
		ks = append(ks, m.kv[i].k)
	}
	for i := range ks {
		if v, ok := m.Load(ks[i]); ok {
			if !f(ks[i], v) {
				return
			}
		}
	}
}
