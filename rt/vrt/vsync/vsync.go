// Package vsync replaces sync in rewritten code.
package vsync

import (
	"sync"

	"ustack/vrt"
)

type Locker = sync.Locker

// Pool models sync.Pool: what is put may or may not come back.
type Pool struct {
	New func() any
	l   []any
}

func (p *Pool) Get() any {
	vrt.Point("pool.get")
	vrt.Touch("pool")
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	vrt.Point("pool.put")
	vrt.Touch("pool")
	if x != nil {
		p.l = append(p.l, x)
	}
}

// Map models sync.Map.
type Map struct {
	keys []any
	m    map[any]any
	o    vrt.HObj
}

func (m *Map) op(what string) {
	vrt.Point(what)
	m.o.AcqRel()
	if m.m == nil {
		m.m = map[any]any{}
	}
}

func (m *Map) Load(k any) (any, bool) { m.op("map.load"); v, ok := m.m[k]; return v, ok }

func (m *Map) put(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(append([]any(nil), m.keys[:i]...), m.keys[i+1:]...)
			break
		}
	}
}

func (m *Map) Store(k, v any) { m.op("map.store"); m.put(k, v) }

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.op("map.loadorstore")
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.put(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.op("map.loadanddelete")
	o, ok := m.m[k]
	if ok {
		m.del(k)
	}
	return o, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) Swap(k, v any) (any, bool) {
	m.op("map.swap")
	o, ok := m.m[k]
	m.put(k, v)
	return o, ok
}

func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.op("map.cas")
	if c, ok := m.m[k]; ok && c == o {
		m.m[k] = n
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, o any) bool {
	m.op("map.cad")
	if c, ok := m.m[k]; ok && c == o {
		m.del(k)
		return true
	}
	return false
}

func (m *Map) Range(f func(k, v any) bool) {
	m.op("map.range")
	ks := append([]any(nil), m.keys...)
	for _, k := range ks {
		m.op("map.range")
		v, ok := m.m[k]
		if ok && !f(k, v) {
			return
		}
	}
}

func (m *Map) Clear() { m.op("map.clear"); m.m = nil; m.keys = nil }

// Mutex models sync.Mutex.
type Mutex struct {
	locked bool
	o      vrt.HObj
}

func (m *Mutex) Lock() {
	if !vrt.Active() {
		return
	}
	vrt.Point("lock")
	if m.locked {
		vrt.Block("lock", func() bool { return !m.locked })
	}
	m.locked = true
	m.o.Acquire()
}

func (m *Mutex) TryLock() bool {
	if !vrt.Active() {
		return true
	}
	vrt.Point("trylock")
	m.o.Acquire()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if !vrt.Active() {
		return
	}
	unlocking()
	if !m.locked {
		vrt.Fatal("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.o.Release()
}

// RWMutex models sync.RWMutex (a waiting writer blocks new readers).
type RWMutex struct {
	w       bool
	readers int
	waiting int
	o, r    vrt.HObj
}

func (m *RWMutex) Lock() {
	if !vrt.Active() {
		return
	}
	vrt.Point("lock")
	if m.w || m.readers > 0 {
		m.waiting++
		vrt.Block("lock", func() bool { return !m.w && m.readers == 0 })
		m.waiting--
	}
	m.w = true
	m.o.Acquire()
	m.r.Acquire()
}

func (m *RWMutex) TryLock() bool {
	if !vrt.Active() {
		return true
	}
	vrt.Point("trylock")
	m.o.Acquire()
	m.r.Acquire()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	if !vrt.Active() {
		return
	}
	unlocking()
	if !m.w {
		vrt.Fatal("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.o.Release()
}

func (m *RWMutex) RLock() {
	if !vrt.Active() {
		return
	}
	vrt.Point("rlock")
	if m.w || m.waiting > 0 {
		vrt.Block("rlock", func() bool { return !m.w && m.waiting == 0 })
	}
	m.readers++
	m.o.Acquire()
}

func (m *RWMutex) TryRLock() bool {
	if !vrt.Active() {
		return true
	}
	vrt.Point("tryrlock")
	m.o.Acquire()
	if m.w || m.waiting > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	if !vrt.Active() {
		return
	}
	unlocking()
	if m.readers <= 0 {
		vrt.Fatal("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.r.Release()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once models sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if !vrt.Active() {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() { var o Once; return func() { o.Do(f) } }

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// WaitGroup models sync.WaitGroup.
type WaitGroup struct {
	n int
	o vrt.HObj
}

func (g *WaitGroup) Add(d int) {
	if !vrt.Active() {
		return
	}
	vrt.Point("wg.add")
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	g.o.Release()
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	if !vrt.Active() {
		return
	}
	vrt.Point("wg.wait")
	if g.n > 0 {
		vrt.Block("wg.wait", func() bool { return g.n == 0 })
	}
	g.o.Acquire()
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	vrt.Go(func() {
		defer g.Done()
		f()
	})
}

// Cond models sync.Cond.
type Cond struct {
	L     Locker
	queue []*bool
	o     vrt.HObj
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if !vrt.Active() {
		return
	}
	f := new(bool)
	c.queue = append(c.queue, f)
	c.L.Unlock()
	vrt.Block("cond.wait", func() bool { return *f })
	c.o.Acquire()
	c.L.Lock()
}

func (c *Cond) Signal() {
	vrt.Point("cond.signal")
	c.o.Release()
	if len(c.queue) > 0 {
		*c.queue[0] = true
		c.queue = c.queue[1:]
	}
}

func (c *Cond) Broadcast() {
	vrt.Point("cond.broadcast")
	c.o.Release()
	for _, f := range c.queue {
		*f = true
	}
	c.queue = nil
}

func unlocking() {
	if vrt.TryLocks {
		vrt.Point("unlock")
	}
}
