// Package sync is the scheduled replacement of the standard package sync.
// Every primitive performs the real operation as well, so that the race
// detector sees the program's own happens-before edges and nothing else.
package sync

import (
	"sync"

	"github.com/lightstep/otel-launcher-go/verifshim/vsched"
)

type Locker = sync.Locker

// Mutex replaces sync.Mutex.
type Mutex struct {
	held bool
	real sync.Mutex
}

//go:norace
func (m *Mutex) Enabled() bool { return !m.held }

//go:norace
func (m *Mutex) Lock() {
	vsched.Point(m)
	m.real.Lock()
	m.held = true
}

//go:norace
func (m *Mutex) TryLock() bool {
	vsched.Point(vsched.Always)
	if m.held || !m.real.TryLock() {
		return false
	}
	m.held = true
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	m.held = false
	m.real.Unlock()
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	writer  bool
	readers int
	waiting int      // writers that have called Lock
	granted int      // readers let in that have not gone on yet
	queue   *rlockOp // readers that wait
	real    sync.RWMutex
}

type rlockOp struct {
	ok   bool
	next *rlockOp
}

//go:norace
func (o *rlockOp) Enabled() bool { return o.ok }

//go:norace
func (m *RWMutex) Enabled() bool { return !m.writer && m.readers == 0 && m.granted == 0 }

// Lock, once called, keeps later readers out, as the real one does.
//
//go:norace
func (m *RWMutex) Lock() {
	vsched.Point(vsched.Always)
	if !m.Enabled() {
		m.waiting++
		vsched.Point(m)
		m.waiting--
	}
	m.real.Lock()
	m.writer = true
}

// Unlock lets the readers in that came meanwhile, before any other writer.
//
//go:norace
func (m *RWMutex) Unlock() {
	m.writer = false
	for o := m.queue; o != nil; o = o.next {
		o.ok = true
		m.granted++
	}
	m.queue = nil
	m.real.Unlock()
}

//go:norace
func (m *RWMutex) TryLock() bool {
	vsched.Point(vsched.Always)
	if !m.Enabled() || !m.real.TryLock() {
		return false
	}
	m.writer = true
	return true
}

//go:norace
func (m *RWMutex) RLock() {
	vsched.Point(vsched.Always)
	if m.writer || m.waiting > 0 {
		o := &rlockOp{next: m.queue}
		m.queue = o
		vsched.Point(o)
		m.granted--
	}
	m.real.RLock()
	m.readers++
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	vsched.Point(vsched.Always)
	if m.writer || m.waiting > 0 || !m.real.TryRLock() {
		return false
	}
	m.readers++
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	m.readers--
	m.real.RUnlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker replaces (*sync.RWMutex).RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once replaces sync.Once.
type Once struct {
	running bool
	real    sync.Once
}

//go:norace
func (o *Once) Enabled() bool { return !o.running }

//go:norace
func (o *Once) set(v bool) { o.running = v }

func (o *Once) Do(f func()) {
	vsched.Point(o)
	o.real.Do(func() {
		o.set(true)
		defer o.set(false)
		f()
	})
}

// OnceFunc replaces sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue replaces sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues replaces sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	n    int
	real sync.WaitGroup
}

//go:norace
func (w *WaitGroup) Enabled() bool { return w.n == 0 }

//go:norace
func (w *WaitGroup) Add(d int) {
	vsched.Point(vsched.Always)
	w.n += d
	w.real.Add(d)
}

//go:norace
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	vsched.Point(w)
	w.real.Wait()
}

// Cond replaces sync.Cond.
type Cond struct {
	L    Locker
	wait []*condWaiter
	hb   sync.Mutex
	real *sync.Cond
}

type condWaiter struct{ hit bool }

//go:norace
func (w *condWaiter) Enabled() bool { return w.hit }

// NewCond replaces sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

func (c *Cond) Wait() {
	if !vsched.Active() {
		c.real.Wait()
		return
	}
	w := &condWaiter{}
	c.hb.Lock()
	c.wait = append(c.wait, w)
	c.hb.Unlock()
	c.L.Unlock()
	vsched.Point(w)
	c.hb.Lock()
	c.hb.Unlock() //nolint
	c.L.Lock()
}

func (c *Cond) Signal() {
	vsched.Point(vsched.Always)
	if c.real != nil {
		c.real.Signal()
	}
	c.hb.Lock()
	defer c.hb.Unlock()
	if len(c.wait) > 0 {
		c.wait[0].hit = true
		c.wait = c.wait[1:]
	}
}

func (c *Cond) Broadcast() {
	vsched.Point(vsched.Always)
	if c.real != nil {
		c.real.Broadcast()
	}
	c.hb.Lock()
	defer c.hb.Unlock()
	for _, w := range c.wait {
		w.hit = true
	}
	c.wait = nil
}

// Map replaces sync.Map.
type Map struct{ real sync.Map }

func (m *Map) Load(k any) (any, bool) { vsched.Point(vsched.Always); return m.real.Load(k) }
func (m *Map) Store(k, v any)         { vsched.Point(vsched.Always); m.real.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	vsched.Point(vsched.Always)
	return m.real.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	vsched.Point(vsched.Always)
	return m.real.LoadAndDelete(k)
}
func (m *Map) Delete(k any)              { vsched.Point(vsched.Always); m.real.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool) { vsched.Point(vsched.Always); return m.real.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	vsched.Point(vsched.Always)
	return m.real.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o any) bool {
	vsched.Point(vsched.Always)
	return m.real.CompareAndDelete(k, o)
}
func (m *Map) Range(f func(k, v any) bool) { vsched.Point(vsched.Always); m.real.Range(f) }
func (m *Map) Clear()                      { vsched.Point(vsched.Always); m.real.Clear() }

// Pool replaces sync.Pool: what was put last is got first, and nothing of an
// earlier execution is.
type Pool struct {
	New   func() any
	epoch int64
	items []*poolItem
}

type poolItem struct {
	x  any
	hb sync.Mutex
}

//go:norace
func (p *Pool) Put(x any) {
	vsched.Point(vsched.Always)
	if x == nil {
		return
	}
	it := &poolItem{x: x}
	it.hb.Lock()
	it.hb.Unlock()
	p.fresh()
	p.items = append(p.items, it)
}

//go:norace
func (p *Pool) Get() any {
	vsched.Point(vsched.Always)
	p.fresh()
	if n := len(p.items); n > 0 {
		it := p.items[n-1]
		p.items = p.items[:n-1]
		it.hb.Lock()
		it.hb.Unlock()
		return it.x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) fresh() {
	if e := vsched.Epoch(); e != p.epoch {
		p.epoch, p.items = e, nil
	}
}
