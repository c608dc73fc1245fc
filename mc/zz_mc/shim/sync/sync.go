package sync

import (
	"fmt"
	"sort"

	"github.com/levilutz/basiccoin/zz_mc/mcrt"
)

type Locker interface {
	Lock()
	Unlock()
}

type noCopy struct{}

type Mutex struct {
	locked bool
	so     mcrt.SyncObj
}

func (m *Mutex) Lock() {
	mcrt.Point()
	if m.locked {
		mcrt.Park(func() bool { return !m.locked })
	}
	m.locked = true
	m.so.Acquire()
}

func (m *Mutex) TryLock() bool {
	mcrt.Point()
	if m.locked {
		return false
	}
	m.locked = true
	m.so.Acquire()
	return true
}

func (m *Mutex) Unlock() {
	if mcrt.Ended() {
		return
	}
	if !m.locked {
		mcrt.Fatal("sync: unlock of unlocked mutex")
	}
	m.so.Release()
	m.locked = false
	mcrt.StmtPoint()
}

type RWMutex struct {
	w       bool
	r       int
	wwait   int
	so, rso mcrt.SyncObj
}

func (m *RWMutex) Lock() {
	mcrt.Point()
	if m.w || m.r > 0 {
		m.wwait++
		mcrt.Park(func() bool { return !m.w && m.r == 0 })
		m.wwait--
	}
	m.w = true
	m.so.Acquire()
	m.rso.Acquire()
}

func (m *RWMutex) TryLock() bool {
	mcrt.Point()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	m.so.Acquire()
	m.rso.Acquire()
	return true
}

func (m *RWMutex) Unlock() {
	if mcrt.Ended() {
		return
	}
	if !m.w {
		mcrt.Fatal("sync: Unlock of unlocked RWMutex")
	}
	m.so.Release()
	m.w = false
	mcrt.StmtPoint()
}

// RLock blocks while a writer holds or waits for the lock (as the real one does).
func (m *RWMutex) RLock() {
	mcrt.Point()
	if m.w || m.wwait > 0 {
		mcrt.Park(func() bool { return !m.w && m.wwait == 0 })
	}
	m.r++
	m.so.Acquire()
}

func (m *RWMutex) TryRLock() bool {
	mcrt.Point()
	if m.w || m.wwait > 0 {
		return false
	}
	m.r++
	m.so.Acquire()
	return true
}

func (m *RWMutex) RUnlock() {
	if mcrt.Ended() {
		return
	}
	if m.r <= 0 {
		mcrt.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.rso.Release()
	m.r--
	mcrt.StmtPoint()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()            { r.m.RLock() }
func (r rlocker) Unlock()          { r.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type WaitGroup struct {
	n  int
	so mcrt.SyncObj
}

func (w *WaitGroup) Add(d int) {
	mcrt.Point()
	if d < 0 {
		w.so.Release()
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	mcrt.Point()
	if w.n > 0 {
		mcrt.Park(func() bool { return w.n == 0 })
	}
	w.so.Acquire()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	mcrt.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
	so   mcrt.SyncObj
}

func (o *Once) Do(f func()) {
	mcrt.Point()
	if o.done {
		o.so.Acquire()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.so.Release(); o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

type Cond struct {
	L       Locker
	waiters []*bool
	so      mcrt.SyncObj
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	f := new(bool)
	c.waiters = append(c.waiters, f)
	c.L.Unlock()
	mcrt.Park(func() bool { return *f })
	c.so.Acquire()
	c.L.Lock()
}
func (c *Cond) Signal() {
	mcrt.Point()
	c.so.Release()
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
}
func (c *Cond) Broadcast() {
	mcrt.Point()
	c.so.Release()
	for _, f := range c.waiters {
		*f = true
	}
	c.waiters = nil
}

type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	mcrt.Point()
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v any) { mcrt.Point(); p.items = append(p.items, v) }

// Map is a sequentially consistent sync.Map.
type Map struct {
	m  map[any]any
	so mcrt.SyncObj
}

func (m *Map) Load(k any) (any, bool) {
	mcrt.Point()
	m.so.Acquire()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v any) {
	mcrt.Point()
	m.so.Acquire()
	m.so.Release()
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	mcrt.Point()
	m.so.Acquire()
	m.so.Release()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	mcrt.Point()
	m.so.Acquire()
	m.so.Release()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	mcrt.Point()
	m.so.Acquire()
	m.so.Release()
	o, ok := m.m[k]
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
	return o, ok
}
func (m *Map) CompareAndSwap(k, old, v any) bool {
	mcrt.Point()
	m.so.Acquire()
	m.so.Release()
	if o, ok := m.m[k]; ok && o == old {
		m.m[k] = v
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old any) bool {
	mcrt.Point()
	m.so.Acquire()
	m.so.Release()
	if o, ok := m.m[k]; ok && o == old {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Clear() { mcrt.Point(); m.m = nil }
func (m *Map) Range(f func(k, v any) bool) {
	mcrt.Point()
	m.so.Acquire()
	type kv struct {
		s    string
		k, v any
	}
	var l []kv
	for k, v := range m.m {
		l = append(l, kv{fmt.Sprint(k), k, v})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].s < l[j].s })
	for _, e := range l {
		if !f(e.k, e.v) {
			return
		}
	}
}
