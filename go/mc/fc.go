package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	influx "github.com/influxdata/influxdb1-client/v2"
	"github.com/iomz/go-llrp"
	"github.com/iomz/gosstrak/filtering"
	"github.com/iomz/gosstrak/monitoring"
	"github.com/iomz/gosstrak/tdt"

	"verif.local/v/gosstrakfc"
	"verif.local/v/sched"
	"verif.local/v/vhook"
)

// LLRP, as far as the session uses it.
const (
	hREN  = 1<<10 | 63 // reader event notification
	hKA   = 1<<10 | 62 // keep-alive
	hSRCR = 1<<10 | 13 // set reader config response
	hROAR = 1<<10 | 61 // access report
	hSRC  = 1<<10 | 3  // set reader config
	hKAA  = 1<<10 | 72 // keep-alive ack
)

func llrpMessage(h int, id uint32, body []byte) []byte {
	b := binary.BigEndian.AppendUint16(nil, uint16(h))
	b = binary.BigEndian.AppendUint32(b, uint32(10+len(body)))
	b = binary.BigEndian.AppendUint32(b, id)
	return append(b, body...)
}

// A reported tag: EPC-96 for 12 bytes, else EPCData.
type reported struct{ pc, id []byte }

func tagReport(t reported) []byte {
	var epc []byte
	if len(t.id) == 12 {
		epc = append([]byte{141}, t.id...)
	} else {
		epc = binary.BigEndian.AppendUint16([]byte{0, 241}, uint16(6+len(t.id)))
		epc = binary.BigEndian.AppendUint16(epc, uint16(8*len(t.id)))
		epc = append(epc, t.id...)
	}
	epc = append(epc, 140, t.pc[0], t.pc[1])
	return append(binary.BigEndian.AppendUint16([]byte{0, 240}, uint16(4+len(epc))), epc...)
}

// rmsg is a message of the reader.
type rmsg struct {
	h    int
	tags []reported
	body []byte
	cut  int // length field announced, if short
	bad  bool
}

func (m rmsg) bytes(id uint32) []byte {
	body := m.body
	for _, t := range m.tags {
		body = append(body, tagReport(t)...)
	}
	b := llrpMessage(m.h, id, body)
	if m.bad {
		binary.BigEndian.PutUint32(b[2:], uint32(m.cut))
	}
	return b
}

// nextTag makes tags that differ from each other; k counts them.
func nextTag(k int, match bool, profile int) reported {
	id := append(tag(match, profile), byte(k>>8))
	n := 12
	if k%3 == 2 {
		n = 8 + 2*(k%5)
	}
	for len(id) < n {
		id = append(id, byte(0x40+k+7*len(id)))
	}
	return reported{[]byte{0x30, byte(k)}, id}
}

// messages spells a session: R, K, S, and a digit for an access report with so many
// tags; m and n are a report with one tag that matches or does not.
func messages(spec string) (out []rmsg) {
	k := 0
	for _, c := range spec {
		switch c {
		case 'R':
			out = append(out, rmsg{h: hREN, body: llrp.ReaderEventNotificationData(1)})
		case 'r':
			out = append(out, rmsg{h: hREN})
		case 'K':
			out = append(out, rmsg{h: hKA})
		case 'S':
			out = append(out, rmsg{h: hSRCR, body: []byte{1, 31, 0, 8, 0, 0, 0, 0}})
		case 'm', 'n':
			out = append(out, rmsg{h: hROAR, tags: []reported{nextTag(k, c == 'm', k)}})
			k++
		default:
			m := rmsg{h: hROAR}
			for i := 0; i < int(c-'0'); i++ {
				m.tags = append(m.tags, nextTag(k, k%2 == 0, k))
				k++
			}
			out = append(out, m)
		}
	}
	return
}

type chunk struct {
	data  []byte
	err   error
	after time.Duration
}

// deadline ends the waiting reads or writes of a connection.
type deadline struct {
	mu     sync.Mutex // never held across a scheduling point
	over   chan struct{}
	passed bool
	timer  *sched.Timer
}

// state returns the channel that is closed when the deadline passes.
func (d *deadline) state() (<-chan struct{}, bool) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.over == nil {
		d.over = sched.Made(make(chan struct{}))
	}
	return d.over, d.passed
}

func (d *deadline) pass() {
	d.state()
	d.mu.Lock()
	over, was := d.over, d.passed
	d.passed = true
	d.mu.Unlock()
	if !was {
		sched.Close(over)
	}
}

func (d *deadline) set(t time.Time) {
	d.mu.Lock()
	m := d.timer
	d.timer = nil
	d.mu.Unlock()
	if m != nil {
		m.Stop()
	}
	d.mu.Lock()
	if d.passed {
		d.passed, d.over = false, nil
	}
	d.mu.Unlock()
	if t.IsZero() {
		return
	}
	left := sched.Until(t)
	if left <= 0 {
		d.pass()
		return
	}
	m = sched.AfterFunc(left, d.pass)
	d.mu.Lock()
	d.timer = m
	d.mu.Unlock()
}

// readerConn is the collector's end of the connection to the reader.
type readerConn struct {
	in       chan chunk
	cur      chunk
	replies  []byte
	consumed int
	closed   atomic.Bool
	stalled  bool // the peer reads nothing
	rd, wr   deadline
}

var errClosed = errors.New("use of closed network connection")

// late is the error of a read or write that ended early.
func (c *readerConn) late() error {
	if c.closed.Load() {
		return errClosed
	}
	return &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}
}

func (c *readerConn) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	for {
		over, passed := c.rd.state()
		if c.closed.Load() || passed {
			return 0, c.late()
		}
		if len(c.cur.data) > 0 && c.cur.after == 0 {
			break
		}
		if c.cur.after > 0 {
			since := sched.Elapsed()
			m := sched.NewTimer(c.cur.after)
			if i, _ := sched.Select(false, sched.CaseRecv(m.C), sched.CaseRecv(over)); i == 0 {
				c.cur.after = 0
			} else {
				m.Stop()
				c.cur.after = max(1, c.cur.after-(sched.Elapsed()-since))
			}
			continue
		}
		if c.cur.err != nil {
			return 0, c.cur.err
		}
		if i, r := sched.Select(false, sched.CaseRecv(c.in), sched.CaseRecv(over)); i == 0 {
			c.cur = sched.Val(c.in, r)
		}
	}
	n := copy(p, c.cur.data)
	c.cur.data = c.cur.data[n:]
	c.consumed += n
	if len(c.cur.data) == 0 && n < len(p) {
		return n, c.cur.err // the last bytes come with the end of the stream
	}
	return n, nil
}

func (c *readerConn) Write(p []byte) (int, error) {
	over, passed := c.wr.state()
	if c.closed.Load() || passed {
		return 0, c.late()
	}
	if sched.RaceMode {
		x := byte(0)
		for _, b := range p { // reads the slice, like the kernel
			x ^= b
		}
		return len(p) + int(x)*0, nil
	}
	if c.stalled {
		sched.Recv(over)
		return 0, c.late()
	}
	c.replies = append(c.replies, p...)
	return len(p), nil
}

func (c *readerConn) Close() error {
	if c.closed.Swap(true) {
		return errClosed
	}
	c.rd.pass()
	c.wr.pass()
	return nil
}
func (c *readerConn) LocalAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 9} }
func (c *readerConn) RemoteAddr() net.Addr {
	return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 5084}
}
func (c *readerConn) SetDeadline(t time.Time) error {
	c.rd.set(t)
	c.wr.set(t)
	return nil
}
func (c *readerConn) SetReadDeadline(t time.Time) error  { c.rd.set(t); return nil }
func (c *readerConn) SetWriteDeadline(t time.Time) error { c.wr.set(t); return nil }

// mclient is a client of a listener.
type mclient struct {
	name   string
	at     time.Duration // it connects so much after the one before
	chunks []chunk
	conn   *readerConn
	expect func(got []byte) string // judges what it was sent, nil: anything goes
}

type listener struct {
	in     chan *mclient
	closed deadline
}

func newListener(clients []*mclient) *listener {
	l := &listener{in: sched.Made(make(chan *mclient, len(clients)+1))}
	for _, c := range clients {
		c.conn.in = sched.Made(make(chan chunk, len(c.chunks)+1))
		for _, ch := range c.chunks {
			sched.SendTo(c.conn.in)(ch)
		}
		sched.SendTo(l.in)(c)
	}
	return l
}

func (l *listener) Accept() (net.Conn, error) {
	over, closed := l.closed.state()
	if closed {
		return nil, errClosed
	}
	i, r := sched.Select(false, sched.CaseRecv(l.in), sched.CaseRecv(over))
	if i != 0 {
		return nil, errClosed
	}
	c := sched.Val(l.in, r)
	if c.at > 0 {
		sched.Sleep(c.at)
	}
	return c.conn, nil
}
func (l *listener) Close() error { l.closed.pass(); return nil }
func (*listener) Addr() net.Addr { return &net.TCPAddr{} }

// cparams are the parameters of a scenario around the whole collector.
type cparams struct {
	fparams
	initial int // initial message ID
	stat    bool
	slowDB  time.Duration // the database takes so long
	offline int           // connection attempts that fail
	msgs    []rmsg
	after   map[int]time.Duration // message that is sent so much later
	gap     time.Duration         // between the pieces of the stream
	cuts    []int                 // where the network splits the stream, nil: after each message
	eof     int                   // 1: the stream ends, 2: the last bytes come with the end
	clients func() []*mclient     // who connects to the management endpoint
	mgmt    string                // its address, if not the usual one
}

// crun is an execution of it.
type crun struct {
	*frun
	p        *cparams
	conn     *readerConn
	sent     int
	done     bool // everything that was sent was read
	returned bool
	end      bool
	clients  []*mclient
	listens  []string
}

var curc *crun

var specOnce sync.Once
var specFile string

// ecspec is the subscription file the collector starts with.
func ecspec() string {
	specOnce.Do(func() {
		var b strings.Builder
		for _, dest := range []string{"http://a.example", "http://b.example", "http://c.example", "http://d.example"} {
			for _, pat := range realSubs[dest] {
				fmt.Fprintf(&b, "%s,%s\n", dest, pat)
			}
		}
		specFile = filepath.Join(scratch, fmt.Sprintf("ecspec-%d.csv", os.Getpid()))
		if err := os.WriteFile(specFile, []byte(b.String()), 0644); err != nil {
			panic(err)
		}
	})
	return specFile
}

// point2message recovers the notification a point was made of.
func (r *crun) write(bp influx.BatchPoints) error {
	if sched.RaceMode {
		for _, pt := range bp.Points() {
			pt.Fields()
		}
		return nil
	}
	if r.p.slowDB > 0 {
		sched.Sleep(r.p.slowDB)
	}
	for _, pt := range bp.Points() {
		f, err := pt.Fields()
		if err != nil {
			sched.Fail("a point without fields: %v", err)
		}
		m := filtering.ManagementMessage{EngineName: pt.Tags()["engine"]}
		ok := true
		switch pt.Name() {
		case "traffic":
			m.Type = filtering.TrafficStatus
			m.EventCount, ok = f["incoming_events"].(int64)
			m.MatchedCount, _ = f["matched_events"].(int64)
		case "throughput":
			m.Type = filtering.EngineStatus
			m.CurrentThroughput, ok = f["event_per_us"].(float64)
		case "engine":
			m.Type = filtering.SelectedEngine
			var n int64
			n, ok = f["selected"].(int64)
			if ok && n >= 0 && n < 4 {
				m.EngineName = engineNames[n]
			}
		default:
			ok = false
		}
		if !ok {
			sched.Fail("a point nobody asked for: %v", pt)
		}
		r.msgs = append(r.msgs, m)
	}
	return nil
}

// spy is a real engine that is watched.
type spy struct {
	filtering.Engine
	r    *frun
	name string
}

func (s *spy) Search(re llrp.ReadEvent) (string, []string, error) {
	id, uris, err := s.Engine.Search(re)
	if !sched.RaceMode {
		a := &answer{tag: append([]byte{}, re.ID...), active: true, finished: true, err: err != nil, id: id, uris: append([]string{}, uris...)}
		a.detail = fmt.Sprintf("(%q, %q, %v)", id, uris, err)
		s.r.answers[0] = append(s.r.answers[0], a)
		s.r.log[s.name] = append(s.r.log[s.name], done{match: err == nil})
		s.r.order[s.name] = append(s.r.order[s.name], fmt.Sprintf("%x/%x", re.PC, re.ID))
	}
	return id, uris, err
}

func (p *cparams) body() {
	fp := p.fparams
	fr := &frun{p: &fp, built: map[string]bool{}, log: map[string][]done{}, answers: make([][]*answer, 1), order: map[string][]string{}}
	cur = fr
	r := &crun{frun: fr, p: p, conn: &readerConn{}}
	curc = r
	fp.install(fr)
	monitoring.ResetGlobals()
	tdt.ResetGlobals()
	gosstrakfc.ResetGlobals()
	sched.Args = []string{"gosstrak-fc", "start", "--ecspecfile=" + ecspec(), fmt.Sprintf("--initialMessageID=%d", p.initial), fmt.Sprintf("--statInterval=%d", p.seconds())}
	if p.stat {
		sched.Args = append(sched.Args, "--enableStat")
	}
	if p.mgmt != "" {
		sched.Args = append(sched.Args, "--managementAddr="+p.mgmt)
	}
	vhook.Write = r.write
	failures := p.offline
	dialled := false
	sched.Dial = func(_, addr string) (net.Conn, error) {
		if failures > 0 {
			failures--
			return nil, errors.New("connection refused")
		}
		if dialled {
			sched.Block()
		}
		dialled = true
		return r.conn, nil
	}
	if p.clients != nil {
		r.clients = p.clients()
	}
	l := newListener(r.clients)
	sched.Listen = func(network, addr string) (net.Listener, error) {
		r.listens = append(r.listens, network+" "+addr)
		return l, nil
	}

	// the reader's stream
	r.conn.in = sched.Made(make(chan chunk, 1<<16))
	var stream []byte
	var starts []int
	for i, m := range p.msgs {
		starts = append(starts, len(stream))
		stream = append(stream, m.bytes(uint32(1000*i+7))...)
	}
	cuts := p.cuts
	if cuts == nil {
		cuts = starts
	}
	cuts = append(append([]int{}, cuts...), len(stream))
	at := 0
	for _, c := range cuts {
		if c <= at {
			continue
		}
		ch := chunk{data: stream[at:c]}
		for i, s := range starts {
			if s == at {
				ch.after = p.after[i]
			}
		}
		if at > 0 && p.gap > 0 {
			ch.after = p.gap
		}
		if c == len(stream) && p.eof == 2 {
			ch.err = io.EOF
		}
		sched.SendTo(r.conn.in)(ch)
		at = c
	}
	if p.eof == 1 {
		sched.SendTo(r.conn.in)(chunk{err: io.EOF})
	}
	r.sent = len(stream)

	sched.Go(func() {
		sched.Name("main")
		gosstrakfc.Main()
		if !sched.RaceMode {
			r.returned = true
		}
		sched.ExitProcess("main returned")
	})
	sched.WaitIdle()
	if sched.RaceMode {
		return
	}
	r.observe()
	sched.Freeze()
	for i := 0; i < 3; i++ {
		sched.Extend(p.every())
		sched.WaitIdle()
	}
	r.done = r.conn.consumed == r.sent
	r.observe()
	if r.done && p.eof == 0 && !r.conn.closed.Load() {
		// is the reader still served?
		was := len(r.conn.replies)
		ch := llrpMessage(hKA, 99, nil)
		r.sent += len(ch)
		sched.SendTo(r.conn.in)(chunk{data: ch})
		sched.WaitIdle()
		if !bytes.Equal(r.conn.replies[was:], llrpMessage(hKAA, uint32(p.initial), nil)) {
			r.blocked = append(append(r.blocked, fmt.Sprintf("a final keep-alive was answered with %x", r.conn.replies[was:])), sched.Blocked()...)
		}
		r.conn.replies = r.conn.replies[:was]
		t := reported{[]byte{0x30, 0xff}, realTags[0]}
		if !p.real {
			t = nextTag(0, true, 0)
			t.pc = []byte{0x30, 0xff}
		}
		ch = rmsg{h: hROAR, tags: []reported{t}}.bytes(99)
		sched.SendTo(r.conn.in)(chunk{data: ch})
		sched.WaitIdle()
		served := false
		for e, l := range r.order {
			if k := len(l) - 1; k >= 0 && l[k] == fmt.Sprintf("%x/%x", t.pc, t.id) {
				r.order[e] = l[:k]
				served = true
			}
		}
		if !served {
			r.blocked = append(append(r.blocked, "a tag reported at the end was not searched"), sched.Blocked()...)
		}
	} else if !r.done {
		r.blocked = sched.Blocked()
	}
	r.end = true
}

func (r *crun) observe() {
	e := rest{msgs: len(r.msgs), active: true, elapsed: sched.Elapsed(), searches: map[string]int{}}
	for n, l := range r.log {
		e.searches[n] = len(l)
	}
	e.ticks, r.dropped = sched.Ticks()
	r.rested = append(r.rested, e)
}

// expected replies and searches, and whether the session has to end.
func (p *cparams) expect() (replies [][2]int, order []string, ends bool) {
	for _, m := range p.msgs {
		if m.bad {
			return replies, order, true
		}
		switch m.h {
		case hREN:
			replies = append(replies, [2]int{hSRC, p.initial})
		case hKA:
			replies = append(replies, [2]int{hKAA, p.initial})
		}
		for _, t := range m.tags {
			order = append(order, fmt.Sprintf("%x/%x", t.pc, t.id))
		}
	}
	return replies, order, p.eof != 0
}

// judgeSession compares what the collector wrote and searched with what the reader
// sent.
func judgeSession(r *crun, o *sched.Outcome) (string, string) {
	p := r.p
	replies, order, ends := p.expect()
	b := r.conn.replies
	n := 0
	for len(b) > 0 {
		if len(b) < 10 || int(binary.BigEndian.Uint32(b[2:])) < 10 || int(binary.BigEndian.Uint32(b[2:])) > len(b) {
			return "reply", fmt.Sprintf("reply %d is not an LLRP message: %x", n+1, b)
		}
		l := int(binary.BigEndian.Uint32(b[2:]))
		h, id := int(binary.BigEndian.Uint16(b)), binary.BigEndian.Uint32(b[6:])
		if n >= len(replies) {
			return "reply", fmt.Sprintf("%d messages ask for an answer, but there is another one: %x", len(replies), b)
		}
		if h != replies[n][0] {
			return "reply", fmt.Sprintf("reply %d has header %#x instead of %#x: %x", n+1, h, replies[n][0], b[:l])
		}
		if id != uint32(replies[n][1]) {
			return "id", fmt.Sprintf("reply %d has message ID %d, configured is %d", n+1, id, p.initial)
		}
		want := llrp.KeepaliveAck(id)
		if h == hSRC {
			want = llrp.SetReaderConfig(id)
		}
		if !bytes.Equal(b[:l], want) {
			return "reply", fmt.Sprintf("reply %d is %x instead of %x", n+1, b[:l], want)
		}
		b = b[l:]
		n++
	}
	if n < len(replies) && !ends {
		return "reply", fmt.Sprintf("%d messages ask for an answer, there were %d", len(replies), n)
	}
	// every tag once, in order, in the engines that are ready
	seen := make([]bool, len(order))
	for e, l := range r.order {
		i := -1
		for _, t := range l {
			for i++; i < len(order) && order[i] != t; i++ {
			}
			if i >= len(order) {
				return "tags", fmt.Sprintf("tags searched by %s: %s; reported: %s", e, clip(strings.Join(l, " "), 1000), clip(strings.Join(order, " "), 1000))
			}
			seen[i] = true
		}
	}
	for i, s := range seen {
		if !s && (!ends || i+1 < len(seen) && seen[i+1]) {
			return "tags", fmt.Sprintf("tag %d of %d was not searched: %s", i+1, len(seen), order[i])
		}
	}
	if ends && o.Exit == "" && !r.conn.closed.Load() {
		return "end", "the session should have ended"
	}
	return "", ""
}

func (p *cparams) scenario(name string, judge func(r *crun) (string, string)) Scenario {
	horizon := 4 * time.Second
	if p.ticks > 0 {
		horizon = time.Duration(p.ticks)*p.every() + 2*time.Second
	}
	horizon += time.Duration(p.offline)*time.Second + time.Duration(len(p.cuts)+len(p.msgs)+1)*p.gap
	return Scenario{
		Name: name,
		Cfg:  sched.Config{Horizon: horizon, Steps: 400000},
		Body: p.body,
		Judge: func(o *sched.Outcome) (string, string) {
			r := curc
			_, _, ends := p.expect()
			if k, w := common(o); w != "" && !(k == "exit" && ends) {
				return k, w
			}
			if k, w := judgeSession(r, o); w != "" {
				if len(r.blocked) > 0 {
					w += " (" + strings.Join(r.blocked, "; ") + ")"
				}
				return k, w
			}
			if ends {
				return "", ""
			}
			if len(r.blocked) > 0 {
				return "blocked", "the reader is not served any more: " + strings.Join(r.blocked, "; ")
			}
			if !r.end {
				return "stuck", "the scenario did not come to its end"
			}
			if judge == nil {
				return "", ""
			}
			return judge(r)
		},
	}
}
