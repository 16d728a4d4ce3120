package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/iomz/gosstrak/filtering"
)

func init() {
	properties["C19"] = property{
		quick:     2,
		scenarios: c19,
		rule:      "A scenario fixes the messages the reader sends and how the network splits its byte stream (and how it ends); its schedules are all interleavings of the collector's goroutines with at most the stated number of deviations from the default schedule. The bytes the collector writes and the tags its engine searches are compared with what an independent encoder of the reader's messages put into the stream.",
	}
	properties["C23"] = property{
		quick:     2,
		scenarios: c23,
		rule:      "A scenario fixes the subscription file, the engines (stubs, some of which never finish, or the real ones), the messages of the reader and when they are sent, whether statistics are enabled, the statistics intervals explored and the order of map iteration; its schedules are all interleavings of the whole collector's goroutines with at most the stated number of deviations from the default schedule.",
	}
}

func seq19(n int, alphabet string, f func(string)) {
	var rec func(s string)
	rec = func(s string) {
		f(s)
		if len(s) < n {
			for _, c := range alphabet {
				rec(s + string(c))
			}
		}
	}
	rec("")
}

func every(n, step int) (out []int) {
	for i := step; i < n; i += step {
		out = append(out, i)
	}
	return
}

func size(ms []rmsg) (n int) {
	for i, m := range ms {
		n += len(m.bytes(uint32(i)))
	}
	return
}

func c19(thorough bool) (out []Scenario) {
	one := fparams{engines: []string{"List"}}
	base := func(spec string) *cparams {
		return &cparams{fparams: one, initial: 1000, msgs: messages(spec)}
	}
	add := func(p *cparams, name string, bound int) {
		s := p.scenario(name, nil)
		s.Bound = bound
		out = append(out, s)
	}
	deeper := 0
	if thorough {
		deeper = 1
	}
	// the message sequences, each message in one piece
	n := 3
	if thorough {
		n = 4
	}
	seq19(n, "RKS012", func(s string) {
		if s == "" {
			return
		}
		b := 2
		if len(s) > 2 {
			b = 1
		}
		add(base(s), "messages "+s, b+1+2*deeper)
		if len(s) <= 2 {
			for eof := 1; eof <= 2; eof++ {
				p := base(s)
				p.eof = eof
				add(p, fmt.Sprintf("messages %s then end %d", s, eof), 1+deeper)
			}
		}
	})
	for _, s := range []string{"RS3K2K1", "rK", "Kr", "KKKKKKKK", "RRRR", "9", "mmmmmm", "RSmKnKmKn"} {
		add(base(s), "messages "+s, 1+2*deeper)
	}
	// long sessions
	for _, s := range []string{"RS" + strings.Repeat("K", 300), "RS" + strings.Repeat("1", 300), strings.Repeat("mKn", 100) + strings.Repeat("RKS2", 30)} {
		add(base(s), fmt.Sprintf("a session of %d messages", len(s)), 0)
		for _, piece := range []int{1, 3, 7, 11, 64, 1460, 1 << 20} {
			p := base(s)
			p.cuts = every(size(p.msgs), piece)
			if piece > size(p.msgs) {
				p.cuts = []int{size(p.msgs)}
			}
			add(p, fmt.Sprintf("a session of %d messages in pieces of %d", len(s), piece), 0)
		}
	}
	// the initial message ID
	for _, id := range []int{0, 1, 255, 256, 65535, 65536, 0x01020304, 0x7fffffff, 0x80000000, 0xffffffff} {
		p := base("RSK1RK")
		p.initial = id
		add(p, fmt.Sprintf("message ID %d", id), 1+deeper)
	}
	// a reader that is not there yet
	for k := 1; k <= 3; k++ {
		p := base("R1K")
		p.offline = k
		add(p, fmt.Sprintf("offline %d", k), 1+deeper)
	}
	// a slow reader, or one that has nothing to say for a long time
	for _, gap := range []time.Duration{50 * time.Millisecond, time.Second, 7 * time.Second, time.Minute, 11 * time.Minute, 3 * time.Hour, 100 * time.Hour} {
		slow := func(spec string, piece int) {
			p := base(spec)
			p.interval = 10000000
			p.gap = gap
			b := 0
			if piece == 0 {
				b = 1 + deeper
			} else {
				p.cuts = every(size(p.msgs), piece)
			}
			add(p, fmt.Sprintf("messages %s in pieces of %d with %v between", spec, piece, gap), b)
		}
		for _, spec := range []string{"RSK1K", "KKmKn", "RSmKnmKmnK2K"} {
			for _, piece := range []int{0, 1, 3, 5, 10, 17, 40} {
				slow(spec, piece)
			}
		}
		p := base("RSmKnK")
		p.interval = 10000000
		p.gap = gap
		p.eof = 1
		add(p, fmt.Sprintf("messages RSmKnK with %v between and an end", gap), 1)
	}
	// splits of the stream
	for _, spec := range []string{"RK2SK", "1K1"} {
		l := size(messages(spec))
		for c := 1; c < l; c++ {
			p := base(spec)
			p.cuts = []int{c}
			add(p, fmt.Sprintf("stream %s cut at %d", spec, c), 2+deeper)
		}
		for c := 1; c <= l; c++ {
			for eof := 0; eof <= 2; eof++ {
				p := base(spec)
				p.cuts = every(l, c)
				p.eof = eof
				add(p, fmt.Sprintf("stream %s in pieces of %d end %d", spec, c, eof), 1+deeper)
			}
		}
		for c := 1; c < l; c++ {
			for d := c + 1; d < l; d++ {
				p := base(spec)
				p.cuts = []int{c, d}
				add(p, fmt.Sprintf("stream %s cut at %d and %d", spec, c, d), deeper)
			}
		}
	}
	// every composition of a header, alone and after another message
	for mask := 0; mask < 1<<10; mask++ {
		for _, spec := range []string{"K1", "1K", "KK", "RK"} {
			at := len(messages(spec)[0].bytes(0))
			if spec == "K1" || spec == "KK" {
				at = 0
			}
			p := base(spec)
			for i := 0; i < 10; i++ {
				if mask>>i&1 == 1 {
					p.cuts = append(p.cuts, at+i)
				}
			}
			if p.cuts == nil {
				p.cuts = []int{at + 10}
			}
			add(p, fmt.Sprintf("stream %s header at %d split %010b", spec, at, mask), 0)
		}
	}
	if thorough { // every composition of a report with a small tag up to its end
		p := base("K")
		small := rmsg{h: hROAR, tags: []reported{{[]byte{0x30, 1}, []byte{1, 2}}}}
		l := size([]rmsg{small})
		_ = p
		for mask := 0; mask < 1<<14; mask++ {
			q := base("K")
			q.msgs = []rmsg{small, {h: hKA}}
			for i := 0; i < 14; i++ {
				if mask>>i&1 == 1 {
					q.cuts = append(q.cuts, l-14+i)
				}
			}
			if q.cuts == nil {
				q.cuts = []int{l}
			}
			add(q, fmt.Sprintf("small report split %014b", mask), 0)
		}
	}
	// many tags in one report, larger than any buffer
	for _, tags := range []int{50, 127, 128, 129, 600, 3500} {
		for _, piece := range []int{536, 1460, 4096, 65535, 1 << 20} {
			if tags > 600 && !thorough && piece != 1460 && piece != 1<<20 {
				continue
			}
			p := base("K")
			m := rmsg{h: hROAR}
			for i := 0; i < tags; i++ {
				m.tags = append(m.tags, nextTag(i, i%3 == 0, i))
			}
			p.msgs = []rmsg{{h: hKA}, m, {h: hKA}, {h: hROAR, tags: m.tags[:2]}}
			p.cuts = every(size(p.msgs), piece)
			add(p, fmt.Sprintf("%d tags in pieces of %d", tags, piece), 0)
		}
	}
	// a length field that is too short
	for _, before := range []string{"", "K", "R", "1", "K1", "2K"} {
		for _, h := range []int{hREN, hKA, hSRCR, hROAR, 0x0400 | 999} {
			for l := 0; l < 10; l++ {
				for split := 0; split < 3; split++ {
					p := base(before)
					p.msgs = append(p.msgs, rmsg{h: h, bad: true, cut: l, tags: []reported{nextTag(1, true, 0)}})
					p.msgs = append(p.msgs, messages("KK1")...)
					if split > 0 {
						p.cuts = every(size(p.msgs), []int{0, 1, 7}[split])
					}
					add(p, fmt.Sprintf("after %q header %#x length %d split %d", before, h, l, split), deeper)
				}
			}
		}
	}
	return
}

// -- C23 -----------------------------------------------------------------------

// judgeCollector: nothing that was produced got lost on its way to the database.
func judgeCollector(r *crun) (string, string) {
	if r.p.real {
		for _, a := range r.answers[0] {
			if k, w := judgeReal(a, "the collector"); w != "" {
				return k, w
			}
		}
	}
	if !r.p.stat {
		if len(r.msgs) > 0 {
			return "statistics", "statistics are off, but there were points: " + show(r.msgs)
		}
		return "", ""
	}
	e := r.rested[len(r.rested)-1]
	msgs := r.msgs[:e.msgs]
	desc := show(msgs)
	for _, n := range r.p.engines {
		var ev, ma int64
		pending := false
		for _, m := range msgs {
			if m.EngineName != n {
				continue
			}
			switch m.Type {
			case filtering.TrafficStatus:
				if pending {
					return "lost", "a throughput was not written: " + desc
				}
				ev += m.EventCount
				ma += m.MatchedCount
				pending = m.EventCount > 0 && !r.p.real
			case filtering.EngineStatus:
				pending = false
				if v := m.CurrentThroughput; !(v > 0) || math.IsInf(v, 0) {
					return "altered", "an impossible throughput was written: " + desc
				}
			}
		}
		if pending {
			return "lost", "a throughput was not written: " + desc
		}
		want, wantMatches := len(r.log[n]), 0
		if want > e.searches[n] {
			want = e.searches[n]
		}
		for _, d := range r.log[n][:want] {
			if d.match {
				wantMatches++
			}
		}
		if int(ev) != want || int(ma) != wantMatches {
			return "lost", fmt.Sprintf("%s performed %d searches with %d matches, written were %d and %d: %s", n, want, wantMatches, ev, ma, desc)
		}
	}
	// the selection written last is the best one
	sel := selections(msgs)
	if len(sel) == 0 {
		return "selection", "no selection was written: " + desc
	}
	used := sel[len(sel)-1]
	if !r.built[used] {
		return "selection", fmt.Sprintf("the selection written last is %s, ready are %v: %s", used, r.built, desc)
	}
	latest, top := map[string]float64{}, 0.0
	for _, m := range msgs {
		if m.Type == filtering.EngineStatus {
			latest[m.EngineName] = m.CurrentThroughput
		}
	}
	for _, v := range latest {
		top = math.Max(top, v)
	}
	if len(latest) == 0 && used != best(r.built) || len(latest) > 0 && latest[used] != top {
		return "selection", fmt.Sprintf("the selection written last is %s, the throughputs are %v, ready are %v: %s", used, latest, r.built, desc)
	}
	if r.dropped == 0 {
		n := int(e.elapsed / r.p.every())
		for _, name := range r.p.engines {
			k := 0
			for _, m := range msgs {
				if m.EngineName == name && m.Type == filtering.TrafficStatus {
					k++
				}
			}
			if !r.p.stuck[name] && k < n-1 {
				return "intervals", fmt.Sprintf("%d intervals passed, %s has %d points: %s", n, name, k, desc)
			}
		}
		if len(sel) < n {
			return "intervals", fmt.Sprintf("%d intervals passed, %d selections were written: %s", n, len(sel), desc)
		}
	}
	return "", ""
}

func c23(thorough bool) (out []Scenario) {
	add := adder(&out)
	for _, s := range subsets(1, 3) {
		for order := 0; order < 2; order++ {
			if order > 0 && len(s) == 1 {
				continue
			}
			bound := 5
			if (len(s) == 3 || order > 0) && !thorough {
				bound = 1
			}
			for _, spec := range []string{"RSmKn", "3K2K", "KmKmKm"} {
				for stat := 0; stat < 2; stat++ {
					for ticks := 0; ticks < 2; ticks++ {
						p := &cparams{initial: 1000, stat: stat == 1, msgs: messages(spec)}
						p.engines, p.work, p.ticks = s, speeds(s, 4), ticks
						add(p.scenario(fmt.Sprintf("%s %s stat=%d ticks=%d", short(s), spec, stat, ticks), judgeCollector), order, bound)
						// the reader's messages come before and after the intervals end
						if ticks == 1 && len(s) < 3 {
							q := *p
							q.ticks = 2
							q.after = map[int]time.Duration{1: 3 * time.Second, 2: time.Second, 3: 4 * time.Second}
							add(q.scenario(fmt.Sprintf("%s %s stat=%d spread", short(s), spec, stat), judgeCollector), order, bound)
						}
						if ticks == 1 && stat == 1 && len(s) < 3 {
							q := *p
							q.slowDB = 2 * time.Second
							q.fparams.ticks = 2
							add(q.scenario(fmt.Sprintf("%s %s slow database", short(s), spec), nil), order, bound)
						}
					}
				}
			}
			// engines that never finish
			for i := range s {
				if len(s) == 1 {
					continue
				}
				p := &cparams{initial: 1, stat: true, msgs: messages("RmKnK")}
				p.engines, p.work, p.ticks = s, speeds(s, 4), 1
				p.stuck = map[string]bool{s[i]: true}
				add(p.scenario(fmt.Sprintf("%s stuck=%s", short(s), short(s[i:i+1])), judgeCollector), order, bound)
			}
			if len(s) <= 2 {
				for stat := 0; stat < 2; stat++ {
					p := &cparams{initial: 7, stat: stat == 1, msgs: messages("RSK")}
					for i, t := range realTags {
						p.msgs = append(p.msgs, rmsg{h: hROAR, tags: []reported{{[]byte{0x30, byte(i)}, t}}})
						p.msgs = append(p.msgs, rmsg{h: hKA})
					}
					p.engines, p.ticks, p.real, p.spied = s, 1, true, true
					s := p.scenario(fmt.Sprintf("%s real stat=%d", short(s), stat), judgeCollector)
					s.Cfg.NowStep = time.Microsecond
					add(s, order, 4)
				}
			}
		}
	}
	// other intervals, long sessions
	for _, s := range subsets(1, 2) {
		for stat := 0; stat < 2; stat++ {
			for _, iv := range []int{1, 8} {
				p := &cparams{initial: 1000, stat: stat == 1, msgs: messages("RSmKn")}
				p.engines, p.work, p.ticks, p.interval = s, speeds(s, 4), 2, iv
				p.after = map[int]time.Duration{2: time.Second, 4: time.Second}
				add(p.scenario(fmt.Sprintf("%s interval=%d stat=%d", short(s), iv, stat), judgeCollector), 0, 1)
			}
			p := &cparams{initial: 1000, stat: stat == 1, msgs: messages("RS" + strings.Repeat("mK2n", 30)), after: map[int]time.Duration{}}
			p.engines, p.work, p.ticks = s, speeds(s, 4), 30
			for i := range p.msgs {
				p.after[i] = time.Duration(i%3) * time.Second
			}
			add(p.scenario(fmt.Sprintf("%s long session stat=%d", short(s), stat), judgeCollector), 0, 0)
			q := *p
			q.after = nil
			add(q.scenario(fmt.Sprintf("%s long session at once stat=%d", short(s), stat), judgeCollector), 0, 0)
		}
	}
	return
}
