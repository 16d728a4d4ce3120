package sched

import (
	"sync"
	"unsafe"

	"verif.local/v/sched/smap"
)

// sstate is the per-world state behind a synchronisation object; an object that
// outlives a world starts afresh in the next one.
type sstate struct {
	seq     uint64
	obj     object
	locked  bool
	readers int
	waiting int
	count   int
	done    bool
	rel     *byte // released by writers
	rrel    *byte // released by readers
}

func (s *sstate) reset(w *World) *sstate {
	if s.seq != w.seq {
		*s = sstate{seq: w.seq, obj: w.newObject()}
		if RaceMode {
			s.rel, s.rrel = newTok(), newTok()
		}
	}
	return s
}

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is sync.Mutex.
type Mutex struct {
	n sync.Mutex
	s sstate
}

func (m *Mutex) Lock() {
	w, t := me()
	if w == nil {
		m.n.Lock()
		return
	}
	if w.killing {
		t.dying()
		return
	}
	s := m.s.reset(w)
	t.p = pending{name: "lock", obj: &s.obj, write: true, en: func() bool { return !s.locked }, ex: func() { s.locked = true }}
	if t.do() {
		raceAcq(s.rel)
	}
}

func raceAcq(p *byte) {
	if RaceMode && p != nil {
		raceAcquire(p)
	}
}

func raceRel(p *byte) {
	if RaceMode && p != nil {
		raceReleaseMerge(p)
	}
}

func (m *Mutex) TryLock() (ok bool) {
	w, t := me()
	if w == nil {
		return m.n.TryLock()
	}
	if w.killing {
		t.dying()
		return true
	}
	s := m.s.reset(w)
	t.p = pending{name: "trylock", obj: &s.obj, write: true, en: yes, ex: func() {
		if ok = !s.locked; ok {
			s.locked = true
		}
	}}
	if t.do() && ok {
		raceAcq(s.rel)
	}
	return
}

func (m *Mutex) Unlock() {
	w, t := me()
	if w == nil {
		m.n.Unlock()
		return
	}
	if w.killing {
		t.dying()
		return
	}
	s := m.s.reset(w)
	if !s.locked {
		w.fatal("sync: unlock of unlocked mutex")
	}
	raceRel(s.rel)
	s.locked = false
	w.event(t, &s.obj, 3, true)
}

// fatal is an unrecoverable runtime error.
func (w *World) fatal(msg string) { Fail("fatal error: %s", msg) }

// RWMutex is sync.RWMutex: a waiting writer keeps new readers out.
type RWMutex struct {
	n sync.RWMutex
	s sstate
}

func (m *RWMutex) Lock() {
	w, t := me()
	if w == nil {
		m.n.Lock()
		return
	}
	if w.killing {
		t.dying()
		return
	}
	s := m.s.reset(w)
	got := false
	t.p = pending{name: "lock", obj: &s.obj, write: true, en: yes, ex: func() {
		if !s.locked && s.readers == 0 && s.waiting == 0 {
			s.locked, got = true, true
		} else {
			s.waiting++
		}
	}}
	if !t.do() {
		return
	}
	if !got {
		t.p = pending{name: "lock (waiting)", obj: &s.obj, write: true, en: func() bool { return !s.locked && s.readers == 0 }, ex: func() {
			s.waiting--
			s.locked = true
		}}
		if !t.do() {
			return
		}
	}
	raceAcq(s.rel)
	raceAcq(s.rrel)
}

func (m *RWMutex) TryLock() (ok bool) {
	w, t := me()
	if w == nil {
		return m.n.TryLock()
	}
	if w.killing {
		t.dying()
		return true
	}
	s := m.s.reset(w)
	t.p = pending{name: "trylock", obj: &s.obj, write: true, en: yes, ex: func() {
		if ok = !s.locked && s.readers == 0 && s.waiting == 0; ok {
			s.locked = true
		}
	}}
	if t.do() && ok {
		raceAcq(s.rel)
		raceAcq(s.rrel)
	}
	return
}

func (m *RWMutex) Unlock() {
	w, t := me()
	if w == nil {
		m.n.Unlock()
		return
	}
	if w.killing {
		t.dying()
		return
	}
	s := m.s.reset(w)
	if !s.locked {
		w.fatal("sync: Unlock of unlocked RWMutex")
	}
	raceRel(s.rel)
	s.locked = false
	w.event(t, &s.obj, 3, true)
}

func (m *RWMutex) RLock() {
	w, t := me()
	if w == nil {
		m.n.RLock()
		return
	}
	if w.killing {
		t.dying()
		return
	}
	s := m.s.reset(w)
	// readers commute with each other, but not with a writer
	t.p = pending{name: "rlock", obj: &s.obj, en: func() bool { return !s.locked && s.waiting == 0 }, ex: func() { s.readers++ }}
	if t.do() {
		raceAcq(s.rel)
	}
}

func (m *RWMutex) TryRLock() (ok bool) {
	w, t := me()
	if w == nil {
		return m.n.TryRLock()
	}
	if w.killing {
		t.dying()
		return true
	}
	s := m.s.reset(w)
	t.p = pending{name: "tryrlock", obj: &s.obj, write: true, en: yes, ex: func() {
		if ok = !s.locked && s.waiting == 0; ok {
			s.readers++
		}
	}}
	if t.do() && ok {
		raceAcq(s.rel)
	}
	return
}

func (m *RWMutex) RUnlock() {
	w, t := me()
	if w == nil {
		m.n.RUnlock()
		return
	}
	if w.killing {
		t.dying()
		return
	}
	s := m.s.reset(w)
	if s.readers == 0 {
		w.fatal("sync: RUnlock of unlocked RWMutex")
	}
	raceRel(s.rrel)
	s.readers--
	w.event(t, &s.obj, 4, false)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n sync.WaitGroup
	s sstate
}

func (g *WaitGroup) Add(d int) {
	w, t := me()
	if w == nil {
		g.n.Add(d)
		return
	}
	if w.killing {
		t.dying()
		return
	}
	s := g.s.reset(w)
	raceRel(s.rel)
	s.count += d
	w.event(t, &s.obj, 5, true)
	if s.count < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	w, t := me()
	if w == nil {
		g.n.Wait()
		return
	}
	if w.killing {
		t.dying()
		return
	}
	s := g.s.reset(w)
	t.p = pending{name: "wait for group", obj: &s.obj, write: true, en: func() bool { return s.count == 0 }}
	if t.do() {
		raceAcq(s.rel)
	}
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	Go(func() {
		defer g.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	n sync.Once
	s sstate
}

func (o *Once) Do(f func()) {
	w, t := me()
	if w == nil {
		o.n.Do(f)
		return
	}
	if w.killing {
		t.dying()
		return
	}
	s := o.s.reset(w)
	first := false
	t.p = pending{name: "once", obj: &s.obj, write: true, en: func() bool { return !s.locked }, ex: func() {
		if !s.done {
			s.locked, first = true, true
		}
	}}
	if !t.do() {
		return
	}
	raceAcq(s.rel)
	if first {
		defer func() {
			if w.killing {
				return
			}
			raceRel(s.rel)
			s.locked, s.done = false, true
			w.event(t, &s.obj, 6, true)
		}()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	o := new(Once)
	v := new(T)
	return func() T {
		o.Do(func() { *v = f() })
		return *v
	}
}

// Cond is sync.Cond.
type Cond struct {
	L Locker
	n *sync.Cond
	s sstate
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l, n: sync.NewCond(l)} }

func (c *Cond) Wait() {
	w, t := me()
	if w == nil {
		c.n.Wait()
		return
	}
	if w.killing {
		t.dying()
		return
	}
	s := c.s.reset(w)
	ticket := s.waiting
	s.waiting++
	w.event(t, &s.obj, 8, true)
	c.L.Unlock()
	t.p = pending{name: "wait for condition", obj: &s.obj, write: true, en: func() bool { return s.count > ticket }}
	if t.do() {
		raceAcq(s.rel)
		c.L.Lock()
	}
}

func (c *Cond) wake(all bool) {
	w, t := me()
	if w == nil {
		if all {
			c.n.Broadcast()
		} else {
			c.n.Signal()
		}
		return
	}
	if w.killing {
		t.dying()
		return
	}
	s := c.s.reset(w)
	raceRel(s.rel)
	t.p = pending{name: "signal", obj: &s.obj, write: true, en: yes, ex: func() {
		if all {
			s.count = s.waiting
		} else if s.count < s.waiting {
			s.count++
		}
	}}
	t.do()
}

func (c *Cond) Signal()    { c.wake(false) }
func (c *Cond) Broadcast() { c.wake(true) }

// Map is sync.Map: every method is a scheduling point, then the real one runs.
type Map struct {
	mu sync.Mutex
	m  smap.Map
}

func (m *Map) n() smap.Map {
	if w, _ := me(); w == nil { // in a world only one thread runs, and the lock would order them
		m.mu.Lock()
		defer m.mu.Unlock()
	}
	if m.m == nil {
		m.m = smap.New()
	}
	return m.m
}

func (m *Map) point(write bool, name string) bool {
	Point(unsafe.Pointer(m), write, name)
	return !dead()
}

func (m *Map) Load(k any) (any, bool) {
	m.point(false, "map load")
	return m.n().Load(k)
}

func (m *Map) Store(k, v any) {
	if m.point(true, "map store") {
		m.n().Store(k, v)
	}
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.point(true, "map load or store")
	return m.n().LoadOrStore(k, v)
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.point(true, "map load and delete")
	return m.n().LoadAndDelete(k)
}

func (m *Map) Delete(k any) {
	if m.point(true, "map delete") {
		m.n().Delete(k)
	}
}

func (m *Map) Swap(k, v any) (any, bool) {
	m.point(true, "map swap")
	return m.n().Swap(k, v)
}

func (m *Map) CompareAndSwap(k, o, v any) bool {
	m.point(true, "map compare and swap")
	return m.n().CompareAndSwap(k, o, v)
}

func (m *Map) CompareAndDelete(k, o any) bool {
	m.point(true, "map compare and delete")
	return m.n().CompareAndDelete(k, o)
}

func (m *Map) Clear() {
	m.point(true, "map clear")
	m.n().Clear()
}

// Range visits the entries in the controlled order. Real sync.Map may see stores
// that happen during the iteration: each entry is loaded at a point of its own.
func (m *Map) Range(f func(k, v any) bool) {
	if !m.point(false, "map range") {
		return
	}
	keys := map[any]bool{}
	m.n().Range(func(k, _ any) bool {
		keys[k] = true
		return true
	})
	for k := range RangeMap(keys) {
		v, ok := m.Load(k)
		if !ok {
			continue
		}
		if dead() || !f(k, v) {
			return
		}
	}
}

// AtomicArg is a scheduling point before an operation of sync/atomic.
func AtomicArg[T any](p *T) *T {
	Point(unsafe.Pointer(p), true, "atomic")
	return p
}
