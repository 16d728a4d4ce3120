//go:build mgmt

package main

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"time"

	"github.com/moby/spdystream/spdy"

	"verif.local/v/aleec"
	"verif.local/v/sched"
)

func init() {
	properties["C26"] = property{
		quick:     2,
		scenarios: c26,
		rule:      "A scenario fixes the clients that connect to the management endpoint of the collector or to the notification endpoint (every sequence of up to three clients, well-behaved or not), when they do, and what the reader sends meanwhile; its schedules are all interleavings of the goroutines of the program and of the SPDY library (rewritten onto the scheduler as well) with at most the stated number of deviations from the default schedule. What each well-behaved client is sent is decoded and compared with what it sent.",
	}
}

// stream is what a client does on a stream.
type spdyStream struct {
	parts  []string // data frames, the last with FIN
	open   bool     // no FIN
	header bool     // sends a header in between
}

// frames encodes them; the frames of different streams take turns.
func frames(streams []spdyStream) (out [][]byte) {
	var buf bytes.Buffer
	f, err := spdy.NewFramer(&buf, bytes.NewReader(nil))
	if err != nil {
		panic(err)
	}
	write := func(fr spdy.Frame) {
		if err := f.WriteFrame(fr); err != nil {
			panic(err)
		}
		out = append(out, append([]byte{}, buf.Bytes()...))
		buf.Reset()
	}
	for i := range streams {
		write(&spdy.SynStreamFrame{StreamId: spdy.StreamId(2*i + 1), Headers: http.Header{"X-N": {fmt.Sprint(i)}}})
	}
	for k := 0; ; k++ {
		more := false
		for i, s := range streams {
			if k > len(s.parts) {
				continue
			}
			more = true
			id := spdy.StreamId(2*i + 1)
			if k == len(s.parts) {
				if s.header {
					write(&spdy.HeadersFrame{StreamId: id, Headers: http.Header{"X-M": {fmt.Sprint(i)}}})
				}
				continue
			}
			d := &spdy.DataFrame{StreamId: id, Data: []byte(s.parts[k])}
			if k == len(s.parts)-1 && !s.open {
				d.Flags = spdy.DataFlagFin
			}
			write(d)
		}
		if !more {
			return
		}
	}
}

// mirrored judges what the client was sent.
func mirrored(streams []spdyStream) func([]byte) string {
	return func(got []byte) string {
		f, _ := spdy.NewFramer(io.Discard, bytes.NewReader(got))
		type seen struct {
			replied, header, fin bool
			data                 []byte
		}
		all := make([]seen, len(streams))
		for {
			fr, err := f.ReadFrame()
			if err == io.EOF {
				break
			} else if err != nil {
				return fmt.Sprintf("what it was sent is no SPDY: %v: %x", err, clip(string(got), 100))
			}
			at := func(id spdy.StreamId) *seen {
				if i := int(id) / 2; id%2 == 1 && i < len(all) {
					return &all[i]
				}
				return &seen{}
			}
			switch fr := fr.(type) {
			case *spdy.SynReplyFrame:
				s := at(fr.StreamId)
				if s.replied {
					return fmt.Sprintf("stream %d was answered twice", fr.StreamId)
				}
				s.replied = true
			case *spdy.DataFrame:
				s := at(fr.StreamId)
				if !s.replied || s.fin {
					return fmt.Sprintf("data on stream %d before its answer or after its end", fr.StreamId)
				}
				s.data = append(s.data, fr.Data...)
				s.fin = fr.Flags&spdy.DataFlagFin != 0
			case *spdy.HeadersFrame:
				s := at(fr.StreamId)
				s.header = true
			case *spdy.RstStreamFrame:
				return fmt.Sprintf("stream %d was reset: %v", fr.StreamId, fr.Status)
			case *spdy.GoAwayFrame:
				return "the connection was ended"
			}
		}
		for i, s := range streams {
			want := strings.Join(s.parts, "")
			switch {
			case !all[i].replied:
				return fmt.Sprintf("stream %d was not answered", 2*i+1)
			case string(all[i].data) != want:
				return fmt.Sprintf("stream %d got %d bytes %q back instead of %d bytes %q", 2*i+1, len(all[i].data), clip(string(all[i].data), 40), len(want), clip(want, 40))
			case all[i].fin == s.open:
				return fmt.Sprintf("stream %d ended: %v", 2*i+1, all[i].fin)
			case s.header && !all[i].header:
				return fmt.Sprintf("the header on stream %d was not mirrored", 2*i+1)
			}
		}
		return ""
	}
}

const idle = 20 * time.Minute

// newClient makes a client: g does everything right, o leaves its stream open, m has
// many streams and large frames, l is idle for a long time first, i in the middle; s
// says nothing, h only half a frame, x something else, v vanishes at once, w in the
// middle of a frame, b does not read.
func newClient(kind rune) *mclient {
	c := &mclient{name: string(kind), conn: &readerConn{}}
	good := func(streams ...spdyStream) [][]byte {
		c.expect = mirrored(streams)
		return frames(streams)
	}
	send := func(fs ...[]byte) {
		for _, f := range fs {
			c.chunks = append(c.chunks, chunk{data: f})
		}
	}
	switch kind {
	case 'g':
		send(good(spdyStream{parts: []string{"abc", "defg"}})...)
	case 'o':
		send(bytes.Join(good(spdyStream{parts: []string{"one"}, open: true, header: true}, spdyStream{parts: []string{"two"}}), nil))
	case 'm':
		var ss []spdyStream
		for i := 0; i < 7; i++ {
			ss = append(ss, spdyStream{parts: []string{strings.Repeat("x", i*3000+1), "y", strings.Repeat("z", 40000)}, open: i%3 == 2})
		}
		send(good(ss...)...)
	case 'l':
		send(good(spdyStream{parts: []string{"late"}})...)
		c.chunks[0].after = idle
	case 'i':
		send(good(spdyStream{parts: []string{"some", "more"}})...)
		c.chunks[2].after = idle
	case 's':
	case 'h':
		send(frames([]spdyStream{{parts: []string{"never"}}})[0][:11])
	case 'x':
		send([]byte("GET /status HTTP/1.1\r\nHost: localhost\r\n\r\n"))
	case 'v':
		c.chunks = append(c.chunks, chunk{err: io.EOF})
	case 'w':
		f := frames([]spdyStream{{parts: []string{"first", "second"}}})
		send(f[0], f[1], f[2][:9])
		c.chunks = append(c.chunks, chunk{err: &net.OpError{Op: "read", Err: fmt.Errorf("connection reset by peer")}})
	case 'b':
		send(frames([]spdyStream{{parts: []string{"abc"}}})...)
		c.conn.stalled = true
	}
	return c
}

func clientsOf(spec string, apart time.Duration) func() []*mclient {
	return func() (out []*mclient) {
		for _, k := range spec {
			c := newClient(k)
			c.at = apart
			out = append(out, c)
		}
		return
	}
}

func judgeClients(cs []*mclient) (string, string) {
	for i, c := range cs {
		if c.expect == nil {
			continue
		}
		if what := c.expect(c.conn.replies); what != "" {
			var all []string
			for _, c := range cs {
				all = append(all, c.name)
			}
			return "client", fmt.Sprintf("client %d of %s: %s", i+1, strings.Join(all, ""), what)
		}
	}
	return "", ""
}

// erun is an execution of the notification endpoint.
type erun struct {
	clients  []*mclient
	listens  []string
	returned bool
	end      bool
	blocked  []string
}

var cure *erun

// endpoint is a scenario around the notification endpoint.
func endpoint(spec string, apart time.Duration, port string) Scenario {
	make := clientsOf(spec, apart)
	return Scenario{
		Name: fmt.Sprintf("notification endpoint clients=%s apart=%v port=%s", spec, apart, port),
		Cfg:  sched.Config{Horizon: 3*idle + time.Duration(len(spec)+1)*apart, Steps: 400000},
		Body: func() {
			r := &erun{clients: make()}
			cure = r
			aleec.ResetGlobals()
			sched.Args = []string{"ale-ec"}
			if port != "" {
				sched.Args = append(sched.Args, "--port="+port)
			}
			l := newListener(r.clients)
			sched.Listen = func(network, addr string) (net.Listener, error) {
				r.listens = append(r.listens, network+" "+addr)
				return l, nil
			}
			sched.Go(func() {
				sched.Name("main")
				aleec.Main()
				r.returned = true
				sched.ExitProcess("main returned")
			})
			sched.WaitIdle()
			sched.Extend(2 * idle)
			sched.WaitIdle()
			r.blocked = sched.Blocked()
			r.end = true
		},
		Judge: func(o *sched.Outcome) (string, string) {
			r := cure
			if k, w := common(o); w != "" {
				return k, w
			}
			if k, w := judgeClients(r.clients); w != "" {
				return k, w + " (" + clip(strings.Join(r.blocked, "; "), 600) + ")"
			}
			want := port
			if want == "" {
				want = "9323"
			}
			if len(r.listens) != 1 || !strings.HasPrefix(r.listens[0], "tcp") || !strings.HasSuffix(r.listens[0], ":"+want) {
				return "address", fmt.Sprintf("it listens at %q instead of port %s", r.listens, want)
			}
			if !r.end {
				return "stuck", "the scenario did not come to its end"
			}
			return "", ""
		},
	}
}

// managed is a scenario around the collector.
func (p *cparams) managed(name string) Scenario {
	addr := p.mgmt
	if addr == "" {
		addr = "127.0.0.1:2784"
	}
	s := p.scenario(name, func(r *crun) (string, string) {
		if k, w := judgeClients(r.clients); w != "" {
			return k, w
		}
		if len(r.listens) != 1 || r.listens[0] != "tcp "+addr {
			return "address", fmt.Sprintf("it listens at %q instead of %q", r.listens, addr)
		}
		return "", ""
	})
	s.Cfg.Horizon = 3*idle + 200*time.Second
	return s
}

func c26(thorough bool) (out []Scenario) {
	add := func(s Scenario, bound int) {
		s.Bound = bound
		out = append(out, s)
	}
	const kinds = "gomlishxvwb"
	var specs []string
	n := 3
	if thorough {
		n = 4
	}
	seq19(n, kinds, func(s string) {
		if strings.ContainsAny(s, "gomli") {
			specs = append(specs, s)
		}
	})
	for _, spec := range specs {
		for _, apart := range []time.Duration{0, time.Second} {
			b := 0
			if len(spec) < 3 && apart == 0 {
				b = 2
			}
			add(endpoint(spec, apart, ""), b)
			p := &cparams{initial: 1000, msgs: messages("RSmK"), clients: clientsOf(spec, apart)}
			p.engines, p.interval = []string{"List"}, 3600
			if len(spec)%2 == 0 {
				p.after = map[int]time.Duration{2: time.Second, 3: idle}
			}
			add(p.managed(fmt.Sprintf("collector clients=%s apart=%v", spec, apart)), b)
		}
	}
	for _, many := range []string{strings.Repeat("g", 40), strings.Repeat("b", 30) + "g", strings.Repeat("s", 30) + "ml", strings.Repeat("vw", 20) + "g", strings.Repeat("hx", 20) + "o"} {
		add(endpoint(many, 0, ""), 0)
		p := &cparams{initial: 1000, msgs: messages("RSmK"), clients: clientsOf(many, 0)}
		p.engines, p.interval = []string{"List"}, 3600
		add(p.managed(fmt.Sprintf("collector clients=%s", many)), 0)
	}
	for _, addr := range []string{"0.0.0.0:4000", "[::1]:1", "10.1.2.3:65535"} {
		p := &cparams{initial: 1000, msgs: messages("RSmK"), clients: clientsOf("gs", 0), mgmt: addr}
		p.engines, p.interval = []string{"List"}, 3600
		add(p.managed("collector at "+addr), 0)
	}
	for _, port := range []string{"1", "80", "9323", "65535"} {
		add(endpoint("g", 0, port), 0)
	}
	return
}
