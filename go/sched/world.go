package sched

import (
	"fmt"
	"runtime"
	"time"
	"unsafe"
)

// The cooperative scheduler. At most one goroutine of the program under test runs
// at any time; it runs until it announces its next synchronising operation, then a
// transition is chosen among all enabled ones and executed. The code of this
// package may be compiled without race instrumentation, but runtime functions for
// maps, append and copy still report accesses, so the parts that run in the
// goroutines of the program use none of them.

const (
	manyThreads = 64 // finished threads are forgotten when there are as many
	maxThreads  = 4096
	maxTrans    = 512
	epoch       = 1_500_000_000_000_000_000
)

// W is the active world; nil means that every function behaves natively.
var W *World

// World is one controlled execution.
type World struct {
	cfg     *Config
	threads []*thread
	sorted  []*thread // by rank
	nthr    int
	many    int    // forget finished threads when there are as many
	spawned int    // threads ever
	gone    uint64 // fingerprint of the forgotten threads
	running *thread
	cur     [2]*thread // participants of the last transition
	runq    []*thread
	nrun    int
	table   []entry
	ntab    int
	timers  []*stimer
	ntim    int
	now     int64
	horizon int64
	seq     uint64
	nobj    uint64
	nchan   int
	tr      [maxTrans]trans
	ntr     int
	frozen  bool
	killing bool
	over    bool
	stuck   bool // the body waits forever
	driver  chan struct{}
	join    *byte

	steps   int
	prefix  []int
	npre    int
	points  []point
	npoint  int
	cost    int
	visited *visited

	fail    string
	failArg string
	exit    string
	pruned  bool
	trace   []traceStep
	ntrace  int
	ticks   int // delivered by tickers
	dropped int // ticks nobody had taken the previous one of
	Data    any
}

// Config of an execution.
type Config struct {
	Horizon  time.Duration // timers beyond it do not fire
	NowStep  time.Duration // by which reading the clock advances a thread's time
	Steps    int           // limit
	Down     bool          // the default schedule goes round the threads the other way
	Salt     uint64        // the order of the threads in the default schedule
	Trace    bool
	NoReplay bool          // a violation shows only once per process
	MaxTime  time.Duration // without the scheduler regaining control: hang
}

type point struct {
	n      int    // alternatives
	chosen int    //
	cost   int    // deviations before this point
	fp     uint64 // fingerprint of the state
}

type traceStep struct {
	t, p *thread
	s    string
	arg  uint64
}

type thread struct {
	w         *World
	idx       int
	forgotten bool
	rank      int
	id        uint64
	h         uint64
	time      int64
	nchild    uint64
	wake      chan struct{}
	exited    chan struct{}
	p         pending
	has       bool // an operation is announced
	done      bool
	killed    bool
	idle      bool // waits for everything else
	res       Res
	tok       *byte
	acq       [2]*byte
	name      string
	pri       int64
}

type pending struct {
	name  string
	obj   *object
	key   unsafe.Pointer
	write bool
	en    func() bool
	ex    func()
	cases []Case
	deflt bool
	never bool
	sleep bool
	idle  bool
}

type object struct {
	id   uint64
	h    uint64
	r    uint64
	time int64
}

type trans struct {
	t  *thread
	ci int
	p  *thread
	pi int
	tm *stimer
}

type entry struct {
	key unsafe.Pointer
	ch  *schan
	obj *object
}

func mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2)
	a ^= a >> 33
	a *= 0xff51afd7ed558ccd
	a ^= a >> 33
	a *= 0xc4ceb9fe1a85ec53
	a ^= a >> 33
	return a
}

func (w *World) newObject() object {
	// named after the creating thread's history, so that the name does not
	// depend on what unrelated threads did
	t := w.running
	if t == nil {
		w.nobj++
		return object{id: mix(0x77, w.nobj)}
	}
	t.nchild++
	return object{id: mix(t.h, t.nchild), time: t.time}
}

// event records that t accesses o.
func (w *World) event(t *thread, o *object, kind uint64, write bool) {
	e := mix(mix(mix(t.h, o.id), kind), o.h)
	if write {
		e = mix(e, o.r)
	}
	t.h = e
	if write {
		o.h = e
		o.r = 0
	} else {
		o.r += e
	}
	if o.time > t.time {
		t.time = o.time
	} else {
		o.time = t.time
	}
}

func (w *World) lookup(key unsafe.Pointer) *entry {
	size := uint64(len(w.table))
	i := mix(uint64(uintptr(key)), 1) % size
	for {
		e := &w.table[i]
		if e.key == key {
			return e
		}
		if e.key == nil {
			return nil
		}
		i = (i + 1) % size
	}
}

func (w *World) insert(key unsafe.Pointer) *entry {
	if w.ntab >= len(w.table)/2 {
		old := w.table
		w.table = make([]entry, 2*len(old))
		for i := range old {
			if old[i].key != nil {
				*w.slot(old[i].key) = old[i]
			}
		}
	}
	e := w.slot(key)
	e.key = key
	w.ntab++
	return e
}

func (w *World) slot(key unsafe.Pointer) *entry {
	size := uint64(len(w.table))
	i := mix(uint64(uintptr(key)), 1) % size
	for w.table[i].key != nil && w.table[i].key != key {
		i = (i + 1) % size
	}
	return &w.table[i]
}

// objectAt is the object that stands for the address.
func (w *World) objectAt(key unsafe.Pointer) *object {
	if e := w.lookup(key); e != nil && e.obj != nil {
		return e.obj
	}
	o := w.newObject()
	e := w.insert(key)
	e.obj = &o
	return e.obj
}

// -- running ---------------------------------------------------------------

// me returns the running thread, or nil in native mode and while being torn down.
func me() (*World, *thread) {
	w := W
	if w == nil || w.running == nil {
		return nil, nil
	}
	return w, w.running
}

// dying reports whether the thread is being torn down; the first time it ends it.
func (t *thread) dying() bool {
	if !t.w.killing {
		return false
	}
	if !t.killed {
		t.killed = true
		runtime.Goexit()
	}
	return true
}

// do announces the operation, waits until it has been executed and returns.
// It reports false if the thread is being torn down.
func (t *thread) do() bool {
	if t.dying() {
		return false
	}
	w := t.w
	t.has = true
	t.acq[0], t.acq[1] = nil, nil
	if RaceMode {
		t.tok = newTok()
		raceRelease(t.tok)
		raceReleaseMerge(w.join)
	}
	w.next(t)
	if RaceMode {
		if t.acq[0] != nil {
			raceAcquire(t.acq[0])
		}
		if t.acq[1] != nil {
			raceAcquire(t.acq[1])
		}
	}
	return true
}

// next gives control to the thread that is to run now and waits for its turn.
func (w *World) next(t *thread) {
	u := w.schedule()
	if u == t {
		w.running = t
		return
	}
	raceDisable()
	if u == nil {
		w.running = nil
		w.driver <- struct{}{}
	} else {
		w.running = u
		u.wake <- struct{}{}
	}
	if !t.done {
		<-t.wake
	}
	raceEnable()
	if !t.done && w.killing {
		t.killed = true
		runtime.Goexit()
	}
}

// schedule returns the thread to run, executing transitions as needed; nil means
// that the execution is over.
func (w *World) schedule() *thread {
	for {
		if w.over {
			return nil
		}
		if w.nrun > 0 {
			u := w.runq[0]
			for i := 1; i < w.nrun; i++ {
				w.runq[i-1] = w.runq[i]
			}
			w.nrun--
			return u
		}
		if w.steps++; w.steps > w.cfg.Steps {
			w.fail = "step limit"
			w.over = true
			return nil
		}
		w.enumerate()
		if w.ntr == 0 {
			// nothing but waiting for idleness
			for i := 0; i < w.nthr; i++ {
				if u := w.threads[i]; u.has && u.p.idle {
					u.has = false
					w.event(u, &object{id: 5}, uint64(w.horizon), true)
					u.acq[0] = w.join
					w.cur[0], w.cur[1] = u, nil
					return u
				}
			}
			w.stuck = true
			w.over = true
			return nil
		}
		c := 0
		if w.ntr > 1 && !w.frozen {
			c = w.choose()
			if w.over {
				return nil
			}
		}
		w.execute(&w.tr[c])
	}
}

// choose decides among several enabled transitions.
func (w *World) choose() int {
	fp := w.fingerprint()
	k := w.npoint
	c := 0
	if k < w.npre {
		c = w.prefix[k]
		if c >= w.ntr {
			w.fail = "nondeterminism: the replayed schedule offers fewer alternatives"
			w.over = true
			return 0
		}
	} else if w.visited != nil && !w.visited.add(fp, w.cost) {
		w.pruned = true
		w.over = true
		return 0
	}
	if k >= len(w.points) {
		n := make([]point, 2*len(w.points)+64)
		for i := 0; i < len(w.points); i++ {
			n[i] = w.points[i]
		}
		w.points = n
	}
	w.points[k] = point{n: w.ntr, chosen: c, cost: w.cost, fp: fp}
	w.npoint++
	if c > 0 {
		w.cost++
	}
	return c
}

// fingerprint identifies the state: the causal history of every thread and timer.
func (w *World) fingerprint() uint64 {
	s := w.gone
	for i := 0; i < w.nthr; i++ {
		t := w.threads[i]
		s += mix(t.id, t.h)
	}
	for i := 0; i < w.ntim; i++ {
		m := w.timers[i]
		s += mix(mix(m.obj.id, m.obj.h), uint64(m.deadline))
	}
	for i := 0; i < 2; i++ {
		if w.cur[i] != nil {
			s = mix(s, 3) + w.cur[i].id
		}
	}
	return s
}

func (w *World) add(x trans) {
	if w.ntr < maxTrans {
		w.tr[w.ntr] = x
		w.ntr++
	}
}

// enumerate lists the enabled transitions, the default one first.
func (w *World) enumerate() {
	w.ntr = 0
	// the participants of the last transition first, then round robin
	for i := 0; i < 2; i++ {
		if c := w.cur[i]; c != nil && !(i == 1 && c == w.cur[0]) {
			w.enumThread(c, true)
		}
	}
	base := 0
	if w.cur[0] != nil {
		base = w.cur[0].rank
	}
	for k := 1; k <= w.nthr; k++ {
		i := (base + k) % w.nthr
		if w.cfg.Down {
			i = (base - k + 2*w.nthr) % w.nthr
		}
		if u := w.sorted[i]; u != w.cur[0] && u != w.cur[1] {
			w.enumThread(u, false)
		}
	}
	// time passes last
	var min int64 = 1<<63 - 1
	for i := 0; i < w.ntim; i++ {
		if m := w.timers[i]; m.active && m.deadline < min {
			min = m.deadline
		}
	}
	if min <= w.horizon {
		for i := 0; i < w.ntim; i++ {
			if m := w.timers[i]; m.active && m.deadline == min {
				w.add(trans{tm: m})
			}
		}
	}
}

// enumThread lists the transitions a thread takes part in. A rendezvous is listed
// once: with the current thread if it takes part, else with the sender.
func (w *World) enumThread(t *thread, current bool) {
	if !t.has || t.p.never || t.p.idle || t.p.sleep {
		return
	}
	if t.p.en != nil {
		if t.p.en() {
			w.add(trans{t: t})
		}
		return
	}
	ready := false
	for ci := range t.p.cases {
		c := &t.p.cases[ci]
		if c.foreign != nil {
			if c.pollForeign() {
				ready = true
				w.add(trans{t: t, ci: ci})
			}
			continue
		}
		if c.ch == nil {
			continue
		}
		if c.send {
			if c.ch.closed || c.ch.n < c.ch.cap {
				ready = true
				w.add(trans{t: t, ci: ci})
				continue
			}
		} else if c.ch.n > 0 || c.ch.closed {
			ready = true
			w.add(trans{t: t, ci: ci})
			continue
		}
		if c.ch.cap > 0 {
			continue
		}
		for i := 0; i < w.nthr; i++ {
			u := w.sorted[i]
			if u == t || !u.has || u.p.cases == nil {
				continue
			}
			if !current && (u == w.cur[0] || u == w.cur[1]) {
				// listed with the current thread already
				continue
			}
			skip := current && u == w.cur[0] && t == w.cur[1] // listed already
			for ui := range u.p.cases {
				d := &u.p.cases[ui]
				if d.ch != c.ch || d.send == c.send || d.foreign != nil {
					continue
				}
				if u.p.deflt && t.p.deflt {
					continue // two polls never meet
				}
				if skip {
					continue
				}
				if current || c.send {
					w.add(trans{t: t, ci: ci, p: u, pi: ui})
				}
			}
		}
	}
	// a partner that is about to communicate need not have arrived yet, so a poll
	// may miss it
	if t.p.deflt && !ready {
		w.add(trans{t: t, ci: -1})
	}
}

func (w *World) ready(t *thread) {
	t.has = false
	w.runq[w.nrun] = t
	w.nrun++
}

func (w *World) note(x *trans) {
	if !w.cfg.Trace {
		return
	}
	if w.ntrace >= len(w.trace) {
		n := make([]traceStep, 2*len(w.trace)+256)
		for i := 0; i < w.ntrace; i++ {
			n[i] = w.trace[i]
		}
		w.trace = n
	}
	s := traceStep{t: x.t, p: x.p}
	if x.tm != nil {
		s.s = "clock"
		s.arg = uint64(x.tm.deadline)
	} else {
		s.s = x.t.p.name
		if x.ci >= 0 && x.ci < len(x.t.p.cases) {
			c := &x.t.p.cases[x.ci]
			s.s = "recv"
			if c.send {
				s.s = "send"
			}
			if c.ch != nil {
				s.arg = uint64(c.ch.num)
			}
		}
	}
	w.trace[w.ntrace] = s
	w.ntrace++
}

// execute performs a transition.
func (w *World) execute(x *trans) {
	w.note(x)
	if x.tm != nil {
		w.fire(x.tm)
		return
	}
	t := x.t
	w.cur[0], w.cur[1] = t, x.p
	if t.p.en != nil {
		if t.p.obj != nil {
			w.event(t, t.p.obj, 1, t.p.write)
		}
		if t.p.ex != nil {
			t.p.ex()
		}
		w.ready(t)
		return
	}
	if x.ci < 0 { // a poll that found nothing observes every channel
		for i := range t.p.cases {
			if c := t.p.cases[i].ch; c != nil {
				w.event(t, &c.object, 2, true)
			}
		}
		t.res = Res{Idx: -1}
		w.ready(t)
		return
	}
	c := &t.p.cases[x.ci]
	if c.foreign != nil {
		t.res = Res{Idx: x.ci, val: c.fval, OK: c.fok}
		t.h = mix(t.h, 11+uint64(x.ci))
		w.ready(t)
		return
	}
	ch := c.ch
	kind := 16 + uint64(x.ci)*2
	if x.p != nil { // rendezvous
		s, r, si, ri := t, x.p, x.ci, x.pi
		if !c.send {
			s, r, si, ri = x.p, t, x.pi, x.ci
		}
		hs := s.h
		w.event(s, &ch.object, mix(r.h, uint64(16+si*2)), true)
		w.event(r, &ch.object, mix(hs, uint64(17+ri*2)), true)
		s.h = mix(s.h, r.h)
		if s.time < r.time {
			s.time = r.time
		}
		s.res = Res{Idx: si}
		r.res = Res{Idx: ri, val: s.p.cases[si].box, OK: true}
		s.acq[0], r.acq[0] = r.tok, s.tok
		w.ready(r)
		w.ready(s)
		return
	}
	w.event(t, &ch.object, kind, true)
	if c.send {
		if ch.closed {
			t.res = Res{Idx: x.ci, closed: true}
			w.ready(t)
			return
		}
		ch.push(c.box, t.tok)
		t.acq[0] = ch.freed()
		t.res = Res{Idx: x.ci}
		w.ready(t)
		return
	}
	if ch.n > 0 {
		v, tok := ch.pop(t.tok)
		t.acq[0] = tok
		t.res = Res{Idx: x.ci, val: v, OK: true}
	} else {
		t.acq[0] = ch.closeTok
		t.res = Res{Idx: x.ci}
	}
	w.ready(t)
}

// -- threads ---------------------------------------------------------------

// Go starts a thread.
func Go(f func()) {
	w, t := me()
	if w == nil {
		go f()
		return
	}
	if t.dying() {
		return
	}
	u := w.spawn(t, f)
	// run it up to its first operation now: nothing before it is visible
	w.nrunFront(u, t)
	w.next(t)
}

func (w *World) nrunFront(a, b *thread) {
	for i := w.nrun - 1; i >= 0; i-- {
		w.runq[i+2] = w.runq[i]
	}
	w.runq[0], w.runq[1] = a, b
	w.nrun += 2
}

func (w *World) spawn(t *thread, f func()) *thread {
	if w.nthr >= w.many {
		w.forget()
	}
	u := &thread{w: w, idx: w.spawned, wake: make(chan struct{}, 1), exited: make(chan struct{})}
	w.spawned++
	if t != nil {
		t.nchild++
		u.id = mix(t.h, t.nchild)
		u.time = t.time
	} else {
		u.id = mix(99, uint64(u.idx))
	}
	u.h = u.id
	w.threads[w.nthr] = u
	// the default schedule orders threads by a hash of their origin, so that it is
	// a function of the causal state
	k := mix(u.id, w.cfg.Salt)
	i := w.nthr
	for ; i > 0 && mix(w.sorted[i-1].id, w.cfg.Salt) > k; i-- {
		w.sorted[i] = w.sorted[i-1]
		w.sorted[i].rank = i
	}
	w.sorted[i] = u
	u.rank = i
	w.nthr++
	go u.main(f)
	return u
}

// forget drops the threads that finished, and makes room if that was not enough.
func (w *World) forget() {
	n := 0
	for i := 0; i < w.nthr; i++ {
		u := w.threads[i]
		if u.done && u.idx != 0 && u != w.cur[0] && u != w.cur[1] && u != w.running {
			w.gone += mix(u.id, u.h)
			u.forgotten = true
			continue
		}
		w.threads[n] = u
		n++
	}
	k := 0
	for i := 0; i < w.nthr; i++ {
		if u := w.sorted[i]; !u.forgotten {
			w.sorted[k] = u
			u.rank = k
			k++
		}
	}
	for i := n; i < w.nthr; i++ {
		w.threads[i], w.sorted[i] = nil, nil
	}
	w.nthr = n
	if n > maxThreads {
		panic("sched: too many threads")
	}
	if 2*n <= w.many {
		return
	}
	w.many *= 2
	w.threads = moreThreads(w.threads, w.many)
	w.sorted = moreThreads(w.sorted, w.many)
	w.runq = moreThreads(w.runq, w.many+2)
}

func moreThreads(old []*thread, n int) []*thread {
	out := make([]*thread, n)
	for i := range old {
		out[i] = old[i]
	}
	return out
}

func (u *thread) main(f func()) {
	w := u.w
	raceDisable()
	<-u.wake
	raceEnable()
	defer func() {
		if !w.killing {
			if r := recover(); r != nil {
				w.fail = "panic"
				w.failArg = describePanic(r)
				w.over = true
			}
		}
		u.done = true
		u.has = false
		raceReleaseMerge(w.join)
		if u.killed || w.killing {
			raceDisable()
			close(u.exited)
			raceEnable()
			return
		}
		w.event(u, &object{id: 7}, 7, true)
		if u.idx == 0 { // the body ended
			w.over = true
		}
		raceDisable()
		close(u.exited)
		raceEnable()
		w.next(u)
	}()
	if w.killing {
		u.killed = true
		runtime.Goexit()
	}
	f()
}

func describePanic(r any) string {
	buf := make([]byte, 8192)
	buf = buf[:runtime.Stack(buf, false)]
	return fmt.Sprint(r) + "\n" + string(buf)
}

// Fail ends the execution with a violation.
func Fail(format string, args ...any) {
	w, t := me()
	if w == nil {
		panic(fmt.Sprintf(format, args...))
	}
	if t.dying() {
		return
	}
	w.fail = "check"
	w.failArg = fmt.Sprintf(format, args...)
	w.over = true
	t.p = pending{name: "fail", never: true}
	t.do()
}

// ExitProcess ends the execution because the program ended the process.
func ExitProcess(why string) {
	w, t := me()
	if w == nil {
		panic("exit: " + why)
	}
	if t.dying() {
		runtime.Goexit()
	}
	w.exit = why
	w.over = true
	t.p = pending{name: "exit", never: true}
	t.do()
}

// WaitIdle waits until no other thread can take a step and no timer is left to
// fire within the horizon.
func WaitIdle() {
	_, t := me()
	t.p = pending{name: "idle", idle: true}
	t.do()
}

// Freeze makes the rest of the execution follow the default schedule.
func Freeze() { W.frozen = true }

// Thaw ends Freeze.
func Thaw() { W.frozen = false }

// Extend lets time go on.
func Extend(d time.Duration) { W.horizon += int64(d) }

// Ticks is how many ticks the tickers delivered, and dropped because the previous
// one had not been received.
func Ticks() (delivered, dropped int) { return W.ticks, W.dropped }

// Elapsed is the virtual time that has passed.
func Elapsed() time.Duration { return time.Duration(W.now) }

// Block blocks forever.
func Block() {
	_, t := me()
	if t == nil {
		select {}
	}
	t.p = pending{name: "block", never: true}
	t.do()
}

// Point is a scheduling point: an access to the object at the address.
func Point(key unsafe.Pointer, write bool, name string) {
	w, t := me()
	if w == nil {
		return
	}
	if t.w.killing {
		t.dying()
		return
	}
	t.p = pending{name: name, obj: w.objectAt(key), write: write, en: yes}
	t.do()
}

func yes() bool { return true }

// Gosched lets the others run first.
func Gosched() {
	_, t := me()
	if t == nil {
		runtime.Gosched()
		return
	}
	Sleep(0)
}

// Goexit ends the thread.
func Goexit() { runtime.Goexit() }

// Blocked describes the threads that have not finished, except the caller.
func Blocked() []string {
	var out []string
	w := W
	for i := 0; i < w.nthr; i++ {
		if t := w.threads[i]; !t.done && t != w.running {
			out = append(out, fmt.Sprintf("thread %d (%s): %s", t.idx, t.name, t.p.describe()))
		}
	}
	return out
}

func (p *pending) describe() string {
	if p.cases == nil {
		return p.name
	}
	s := ""
	for i := range p.cases {
		if i > 0 {
			s += " or "
		}
		if p.cases[i].send {
			s += "send to"
		} else {
			s += "receive from"
		}
		if c := p.cases[i].ch; c != nil {
			s += fmt.Sprintf(" channel %d", c.num)
		} else {
			s += " a nil channel"
		}
	}
	return s
}

// Name names the running thread in traces.
func Name(s string) {
	if w, t := me(); w != nil {
		t.name = s
	}
}
