package sched

import (
	"reflect"
	"unsafe"
)

// schan is a simulated channel. The real channel exists, but is never used while
// a world is active: its address names the simulated one.
type schan struct {
	object
	num      int
	cap      int
	n        int
	buf      []any
	toks     []*byte
	head     int
	free     []*byte // tokens of the receivers that freed slots, oldest first
	nfree    int
	closed   bool
	closeTok *byte
}

func (c *schan) push(v any, tok *byte) {
	i := (c.head + c.n) % c.cap
	c.buf[i] = v
	c.toks[i] = tok
	c.n++
}

func (c *schan) pop(tok *byte) (any, *byte) {
	v, s := c.buf[c.head], c.toks[c.head]
	c.buf[c.head] = nil
	c.head = (c.head + 1) % c.cap
	c.n--
	if RaceMode && c.nfree < c.cap {
		c.free[c.nfree] = tok
		c.nfree++
	}
	return v, s
}

// freed is the token of the receiver whose slot a send now takes.
func (c *schan) freed() *byte {
	if !RaceMode || c.nfree == 0 || c.n+c.nfree <= c.cap {
		return nil
	}
	t := c.free[0]
	for i := 1; i < c.nfree; i++ {
		c.free[i-1] = c.free[i]
	}
	c.nfree--
	return t
}

// Case is a communication of a select.
type Case struct {
	ch      *schan
	send    bool
	box     any // *T of a value to send
	native  reflect.Value
	foreign *reflect.Value
	fval    any
	fok     bool
	fready  bool
}

// Res is the outcome of a communication.
type Res struct {
	Idx    int
	OK     bool
	val    any // *T
	closed bool
}

type knownChan struct {
	key unsafe.Pointer
	cap int
}

// channels made by rewritten code outside of any world (package variables)
var known []knownChan

// Made registers a channel made by rewritten code.
func Made[C any](ch C) C {
	key := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	made(key, func() int { return reflect.ValueOf(ch).Cap() })
	return ch
}

func made(key unsafe.Pointer, cap func() int) {
	w, _ := me()
	if w == nil {
		known = append(known, knownChan{key, cap()})
		return
	}
	w.makeChan(key, cap())
}

func (w *World) makeChan(key unsafe.Pointer, cap int) *schan {
	c := &schan{object: w.newObject(), cap: cap, buf: make([]any, cap), toks: make([]*byte, cap)}
	if RaceMode {
		c.free = make([]*byte, cap)
	}
	w.nchan++
	c.num = w.nchan
	w.insert(key).ch = c
	return c
}

// chanAt finds the simulated channel; nil, true for a nil channel; nil, false for
// a channel that was not made by rewritten code.
func (w *World) chanAt(key unsafe.Pointer) (*schan, bool) {
	if key == nil {
		return nil, true
	}
	if e := w.lookup(key); e != nil && e.ch != nil {
		return e.ch, true
	}
	for i := range known {
		if known[i].key == key {
			return w.makeChan(key, known[i].cap), true
		}
	}
	return nil, false
}

func caseOf(key unsafe.Pointer, send bool, box any, native func() reflect.Value) Case {
	w, _ := me()
	c := Case{send: send, box: box}
	if w == nil {
		c.native = native()
		return c
	}
	ch, ok := w.chanAt(key)
	c.ch = ch
	if !ok {
		v := native()
		c.foreign = &v
	}
	return c
}

// pollForeign tries a channel of code that is not under the scheduler.
func (c *Case) pollForeign() bool {
	if c.fready {
		return true
	}
	if c.send {
		c.fready = c.foreign.TrySend(reflect.ValueOf(c.box).Elem())
		return c.fready
	}
	v, ok := c.foreign.TryRecv()
	if !v.IsValid() {
		return false
	}
	c.fready, c.fok = true, ok
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	c.fval = p.Interface()
	return true
}

func key[C any](ch C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// CaseRecv is a receive of a select.
func CaseRecv[T any](ch <-chan T) Case {
	return caseOf(key(ch), false, nil, func() reflect.Value { return reflect.ValueOf(ch) })
}

// CaseSend is a send of a select.
func CaseSend[T any](ch chan<- T) func(T) Case {
	return func(v T) Case {
		return caseOf(key(ch), true, &v, func() reflect.Value { return reflect.ValueOf(ch) })
	}
}

// Val is the value a select received.
func Val[T any](_ <-chan T, r Res) (v T) {
	if p, ok := r.val.(*T); ok && p != nil {
		return *p
	}
	return
}

// Select is a select statement.
func Select(hasDefault bool, cases ...Case) (int, Res) {
	r := communicate(hasDefault, cases)
	return r.Idx, r
}

func communicate(hasDefault bool, cases []Case) Res {
	w, t := me()
	if w == nil {
		return nativeSelect(hasDefault, cases)
	}
	if w.killing {
		t.dying()
		return Res{Idx: -1}
	}
	t.p = pending{name: "select", cases: cases, deflt: hasDefault}
	if len(cases) == 0 {
		t.p.never = true
	}
	if !t.do() {
		return Res{Idx: -1}
	}
	if t.res.closed {
		panic("send on closed channel")
	}
	return t.res
}

func nativeSelect(hasDefault bool, cases []Case) Res {
	var rc []reflect.SelectCase
	for _, c := range cases {
		if c.send {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectSend, Chan: c.native, Send: reflect.ValueOf(c.box).Elem()})
		} else {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: c.native})
		}
	}
	if hasDefault {
		rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(rc)
	if i == len(cases) {
		return Res{Idx: -1}
	}
	r := Res{Idx: i, OK: ok}
	if !cases[i].send && v.IsValid() {
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		r.val = p.Interface()
	}
	return r
}

// SendTo is ch <- v.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		if w, _ := me(); w == nil {
			ch <- v
			return
		}
		communicate(false, []Case{CaseSend(ch)(v)})
	}
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if w, _ := me(); w == nil {
		v, ok := <-ch
		return v, ok
	}
	r := communicate(false, []Case{CaseRecv(ch)})
	return Val(ch, r), r.OK
}

// RangeChan ranges over a channel.
func RangeChan[T any](ch <-chan T) func(func(T) bool) {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
			if dead() {
				return
			}
		}
	}
}

// dead reports whether the thread runs deferred functions while torn down.
func dead() bool {
	w, _ := me()
	return w != nil && w.killing
}

// Close closes a channel.
func Close[T any](ch chan<- T) {
	w, t := me()
	if w == nil {
		close(ch)
		return
	}
	w.close(t, key(ch), func() { close(ch) })
}

func (w *World) close(t *thread, k unsafe.Pointer, native func()) {
	if w.killing {
		t.dying()
		return
	}
	c, ok := w.chanAt(k)
	if !ok || c == nil {
		native()
		return
	}
	t.p = pending{name: "close", obj: &c.object, write: true, en: yes}
	bad := false
	t.p.ex = func() {
		if c.closed {
			bad = true
			return
		}
		c.closed = true
		c.closeTok = t.tok
	}
	t.do()
	if bad {
		panic("close of closed channel")
	}
}

// Len is len(ch).
func Len[C any](ch C) int {
	w, t := me()
	if w == nil || w.killing {
		return reflect.ValueOf(ch).Len()
	}
	return w.length(t, key(ch), func() int { return reflect.ValueOf(ch).Len() })
}

func (w *World) length(t *thread, k unsafe.Pointer, native func() int) (n int) {
	c, ok := w.chanAt(k)
	if c == nil {
		if !ok {
			return native()
		}
		return 0
	}
	t.p = pending{name: "len", obj: &c.object, en: yes, write: true, ex: func() { n = c.n }}
	t.do()
	return
}

// ReflectSelect is reflect.Select.
func ReflectSelect(cases []reflect.SelectCase) (int, reflect.Value, bool) {
	w, _ := me()
	if w == nil {
		return reflect.Select(cases)
	}
	deflt := -1
	var cs []Case
	var idx []int
	for i, c := range cases {
		switch c.Dir {
		case reflect.SelectDefault:
			deflt = i
			continue
		case reflect.SelectRecv:
			if !c.Chan.IsValid() {
				continue
			}
			cs = append(cs, caseOf(c.Chan.UnsafePointer(), false, nil, func() reflect.Value { return c.Chan }))
		case reflect.SelectSend:
			if !c.Chan.IsValid() {
				continue
			}
			p := reflect.New(c.Chan.Type().Elem())
			p.Elem().Set(c.Send)
			cs = append(cs, caseOf(c.Chan.UnsafePointer(), true, p.Interface(), func() reflect.Value { return c.Chan }))
		}
		idx = append(idx, i)
	}
	r := communicate(deflt >= 0, cs)
	if r.Idx < 0 {
		return deflt, reflect.Value{}, false
	}
	i := idx[r.Idx]
	if cases[i].Dir == reflect.SelectSend {
		return i, reflect.Value{}, false
	}
	if r.val == nil {
		return i, reflect.Zero(cases[i].Chan.Type().Elem()), r.OK
	}
	// a copy, like the one reflect.Select returns
	return i, reflect.ValueOf(reflect.ValueOf(r.val).Elem().Interface()), r.OK
}
