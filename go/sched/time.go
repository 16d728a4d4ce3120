package sched

import (
	"context"
	"fmt"
	"log"
	"net"
	"os"
	"time"
	"unsafe"
)

// stimer is a virtual timer.
type stimer struct {
	obj      object
	deadline int64
	period   int64
	active   bool
	dropped  bool // not in the list of timers
	ch       *schan
	f        func()
	sleeper  *thread
}

func (w *World) newTimer(t *thread, d, period time.Duration) *stimer {
	m := &stimer{obj: w.newObject(), deadline: t.time + int64(d), period: int64(period), active: true}
	w.addTimer(m)
	return m
}

func (w *World) addTimer(m *stimer) {
	// reuse the slot of a timer nobody can start again
	for i := 0; i < w.ntim; i++ {
		if s := w.timers[i]; !s.active && s.sleeper != nil {
			s.dropped = true
			w.timers[i] = m
			return
		}
	}
	if w.ntim >= len(w.timers) {
		// forget those that rest, which come back when they are started again
		n := 0
		for i := 0; i < w.ntim; i++ {
			if s := w.timers[i]; s.active {
				w.timers[n] = s
				n++
			} else {
				s.dropped = true
			}
		}
		w.ntim = n
		if 2*n > len(w.timers) {
			old := w.timers
			w.timers = make([]*stimer, 2*len(old))
			for i := range old {
				w.timers[i] = old[i]
			}
		}
	}
	w.timers[w.ntim] = m
	w.ntim++
}

// fire lets the deadline of m pass.
func (w *World) fire(m *stimer) {
	if m.deadline > w.now {
		w.now = m.deadline
	}
	m.obj.h = mix(m.obj.h, uint64(m.deadline))
	w.cur[0], w.cur[1] = nil, nil
	when := m.deadline
	if m.period > 0 {
		m.deadline += m.period
	} else {
		m.active = false
	}
	if u := m.sleeper; u != nil {
		if u.time < when {
			u.time = when
		}
		u.h = mix(u.h, mix(13, uint64(when)))
		w.cur[0] = u
		w.ready(u)
		return
	}
	if m.f != nil {
		t := w.spawn(nil, m.f)
		t.id = mix(m.obj.id, uint64(when))
		t.h = t.id
		t.time = when
		w.runq[w.nrun] = t
		w.nrun++
		w.cur[0] = t
		return
	}
	c := m.ch
	c.h = mix(mix(c.h, m.obj.h), 17)
	if c.n < c.cap {
		if c.time < when {
			c.time = when
		}
		v := time.Unix(0, epoch+when)
		c.push(&v, nil)
		w.ticks++
	} else {
		w.dropped++
	}
}

// Now is time.Now: the thread's causal virtual time.
func Now() time.Time {
	w, t := me()
	if w == nil {
		return time.Now()
	}
	t.time += int64(w.cfg.NowStep)
	return time.Unix(0, epoch+t.time)
}

// Since is time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until is time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Work lets the running thread take time without a scheduling point.
func Work(d time.Duration) {
	if w, t := me(); w != nil {
		t.time += int64(d)
		t.h = mix(t.h, uint64(d))
	}
}

// Sleep is time.Sleep.
func Sleep(d time.Duration) {
	w, t := me()
	if w == nil {
		time.Sleep(d)
		return
	}
	if w.killing {
		t.dying()
		return
	}
	if d < 0 {
		d = 0
	}
	m := w.newTimer(t, d, 0)
	if m.deadline < w.now {
		m.deadline = w.now
	}
	m.sleeper = t
	t.p = pending{name: "sleep", sleep: true}
	t.do()
}

// Ticker is time.Ticker.
type Ticker struct {
	C <-chan time.Time
	m *stimer
	n *time.Ticker
}

// Timer is time.Timer.
type Timer struct {
	C <-chan time.Time
	m *stimer
	n *time.Timer
}

func timerChan(w *World) (chan time.Time, *schan) {
	c := make(chan time.Time, 1)
	return c, w.makeChan(key(c), 1)
}

// NewTicker is time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	w, t := me()
	if w == nil {
		n := time.NewTicker(d)
		return &Ticker{C: n.C, n: n}
	}
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c, s := timerChan(w)
	m := w.newTimer(t, d, d)
	m.ch = s
	return &Ticker{C: c, m: m}
}

// Tick is time.Tick.
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

func (w *World) arm(t *thread, m *stimer, name string, active bool, d, period int64) (was bool) {
	if w.killing {
		t.dying()
		return
	}
	t.p = pending{name: name, obj: &m.obj, write: true, en: yes, ex: func() {
		was = m.active
		m.active = active
		if active {
			m.deadline = t.time + d
			m.period = period
			if m.dropped {
				m.dropped = false
				w.addTimer(m)
			}
		}
		if m.ch != nil { // since Go 1.23 no stale value is received
			for m.ch.n > 0 {
				m.ch.pop(nil)
			}
			m.ch.h = mix(m.ch.h, m.obj.h)
		}
	}}
	t.do()
	return
}

func (k *Ticker) Stop() {
	if k.m == nil {
		k.n.Stop()
		return
	}
	if w, t := me(); w != nil {
		w.arm(t, k.m, "stop ticker", false, 0, 0)
	}
}

func (k *Ticker) Reset(d time.Duration) {
	if k.m == nil {
		k.n.Reset(d)
		return
	}
	if w, t := me(); w != nil {
		w.arm(t, k.m, "reset ticker", true, int64(d), int64(d))
	}
}

// NewTimer is time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	w, t := me()
	if w == nil {
		n := time.NewTimer(d)
		return &Timer{C: n.C, n: n}
	}
	c, s := timerChan(w)
	m := w.newTimer(t, d, 0)
	m.ch = s
	return &Timer{C: c, m: m}
}

// After is time.After.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	w, t := me()
	if w == nil {
		return &Timer{n: time.AfterFunc(d, f)}
	}
	m := w.newTimer(t, d, 0)
	m.f = f
	return &Timer{m: m}
}

func (k *Timer) Stop() bool {
	if k.m == nil {
		return k.n.Stop()
	}
	if w, t := me(); w != nil {
		return w.arm(t, k.m, "stop timer", false, 0, 0)
	}
	return false
}

func (k *Timer) Reset(d time.Duration) bool {
	if k.m == nil {
		return k.n.Reset(d)
	}
	if w, t := me(); w != nil {
		return w.arm(t, k.m, "reset timer", true, int64(d), 0)
	}
	return false
}

// WithTimeout is context.WithTimeout on virtual time.
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	if w, _ := me(); w == nil {
		return context.WithTimeout(parent, d)
	}
	ctx, cancel := context.WithCancelCause(parent)
	k := AfterFunc(d, func() { cancel(context.DeadlineExceeded) })
	return ctx, func() {
		k.Stop()
		cancel(context.Canceled)
	}
}

// WithDeadline is context.WithDeadline on virtual time.
func WithDeadline(parent context.Context, at time.Time) (context.Context, context.CancelFunc) {
	return WithTimeout(parent, Until(at))
}

// -- process and environment -------------------------------------------------

// Args is os.Args.
var Args = []string{"program"}

// Exit is os.Exit.
func Exit(code int) {
	if w, _ := me(); w == nil {
		os.Exit(code)
	}
	ExitProcess(fmt.Sprintf("exit status %d", code))
}

// MkdirAll is os.MkdirAll; in a world nothing is created.
func MkdirAll(path string, mode os.FileMode) error {
	if w, _ := me(); w == nil {
		return os.MkdirAll(path, mode)
	}
	return nil
}

func LogFatal(v ...any) {
	if w, _ := me(); w == nil {
		log.Fatal(v...)
	}
	ExitProcess("log.Fatal: " + fmt.Sprint(v...))
}

func LogFatalf(f string, v ...any) {
	if w, _ := me(); w == nil {
		log.Fatalf(f, v...)
	}
	ExitProcess("log.Fatal: " + fmt.Sprintf(f, v...))
}

func LogFatalln(v ...any) {
	if w, _ := me(); w == nil {
		log.Fatalln(v...)
	}
	ExitProcess("log.Fatal: " + fmt.Sprintln(v...))
}

// Verbose lets the log lines of the program through.
var Verbose bool

func LogPrint(v ...any) {
	if Verbose {
		log.Println(v...)
	}
}

func LogPrintf(f string, v ...any) {
	if Verbose {
		log.Printf(f, v...)
	}
}

// Dial and Listen replace the network in a world.
var (
	Dial   func(network, addr string) (net.Conn, error)
	Listen func(network, addr string) (net.Listener, error)
)

func NetDial(network, addr string) (net.Conn, error) {
	if w, _ := me(); w == nil {
		return net.Dial(network, addr)
	}
	return Dial(network, addr)
}

func NetDialTimeout(network, addr string, _ time.Duration) (net.Conn, error) {
	return NetDial(network, addr)
}

func NetListen(network, addr string) (net.Listener, error) {
	if w, _ := me(); w == nil {
		return net.Listen(network, addr)
	}
	return Listen(network, addr)
}

var _ = unsafe.Pointer(nil)
