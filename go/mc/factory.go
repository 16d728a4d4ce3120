package main

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/iomz/go-llrp"
	"github.com/iomz/gosstrak/filtering"
	"github.com/iomz/gosstrak/tdt"

	"verif.local/v/sched"
)

// priority of deployment, as documented
var priority = map[string]int{"LegacyEngine": 0, "List": 1, "SplayTree": 2, "PatriciaTrie": 3}

// every is the statistics interval of a scenario.
func (p *fparams) every() time.Duration { return time.Duration(p.seconds()) * time.Second }

func (p *fparams) seconds() int {
	if p.interval == 0 {
		return 5
	}
	return p.interval
}

// fparams are the parameters of a scenario around the engine factory.
type fparams struct {
	engines  []string                   // in AvailableEngines
	stuck    map[string]bool            // engines that never finish generating
	real     bool                       // the real engines instead of stubs
	spied    bool                       // watched
	work     []map[string]time.Duration // per profile: time a stub's search takes
	clients  []client                   //
	rounds   [][]client                 // further clients, started after everything came to rest
	ticks    int                        // statistics intervals explored (in each round)
	interval int                        // seconds, 0: 5
	slow     time.Duration              // the main program takes so long for every message
	overload bool                       // it cannot keep up, searches may still wait at the end
	early    bool                       // the engine in use is looked at before selections settle, too
	poll     bool                       // a thread watches IsActive
	queue    int                        // capacity of the management channel
	subs     filtering.Subscriptions
}

// client is a thread that searches.
type client struct {
	tags    [][]byte // first byte: 1 matches; second: profile
	patient bool     // waits until the factory is active, as the main program does
	pause   bool     // a second passes between its searches
}

type answer struct {
	engine   string // who answered
	match    bool
	active   bool // IsActive before the call
	err      bool
	ok       bool // well-formed
	finished bool
	from     int // selections the main program knew of before the call
	detail   string
	id       string
	uris     []string
	tag      []byte
}

type done struct {
	match bool
	work  time.Duration
}

// frun is one execution.
type frun struct {
	p       *fparams
	ef      *filtering.EngineFactory
	msgs    []filtering.ManagementMessage
	built   map[string]bool
	log     map[string][]done // searches each stub performed
	answers [][]*answer
	active  []bool
	rested  []rest // what was seen each time everything had come to rest
	blocked []string
	dropped int
	order   map[string][]string // searches of each engine, in order
	end     bool
}

type rest struct {
	msgs     int
	active   bool
	elapsed  time.Duration
	probe    answer
	ticks    int
	searches map[string]int
}

var cur *frun

func subset(all []string, mask int) (out []string) {
	for i, s := range all {
		if mask>>i&1 == 1 {
			out = append(out, s)
		}
	}
	return
}

// stub is an engine that answers with its name.
type stub struct {
	r    *frun
	name string
}

func (s *stub) AddSubscription(filtering.Subscriptions)    {}
func (s *stub) DeleteSubscription(filtering.Subscriptions) {}
func (s *stub) Dump() string                               { return s.name }
func (s *stub) MarshalBinary() ([]byte, error)             { return nil, nil }
func (s *stub) UnmarshalBinary([]byte) error               { return nil }
func (s *stub) Name() string                               { return s.name }

var errNoMatch = errors.New("no match found")

func (s *stub) Search(re llrp.ReadEvent) (string, []string, error) {
	m := re.ID[0] == 1
	var d time.Duration
	if w := s.r.p.work; len(w) > 0 {
		d = w[int(re.ID[1])%len(w)][s.name]
	}
	sched.Work(d)
	if !sched.RaceMode {
		s.r.log[s.name] = append(s.r.log[s.name], done{m, d})
		if s.r.order != nil {
			s.r.order[s.name] = append(s.r.order[s.name], fmt.Sprintf("%x/%x", re.PC, re.ID))
		}
	}
	if m {
		return "id:" + s.name, []string{"to:" + s.name, "too:" + s.name}, nil
	}
	return "id:" + s.name, []string{}, errNoMatch
}

func tag(match bool, profile int) []byte {
	b := []byte{0, byte(profile)}
	if match {
		b[0] = 1
	}
	return b
}

var realEngines map[string]filtering.EngineConstructor

func (p *fparams) install(r *frun) {
	filtering.ResetGlobals()
	tdt.ResetGlobals()
	eng := filtering.Engines{}
	for _, name := range p.engines {
		real := filtering.AvailableEngines[name]
		stuck := p.stuck[name]
		eng[name] = func(sub filtering.Subscriptions) filtering.Engine {
			if stuck {
				sched.Block()
			}
			var e filtering.Engine = &stub{r: r, name: name}
			if p.real {
				e = real(sub)
				if p.spied {
					e = &spy{e, r, name}
				}
			}
			if !sched.RaceMode {
				r.built[name] = true
			}
			return e
		}
	}
	filtering.AvailableEngines = eng
}

// search performs one search and records it; the answer is judged later.
func (r *frun) search(a *answer, t []byte) {
	a.tag = t
	a.active = r.ef.IsActive()
	a.from = len(selections(r.msgs))
	re := llrp.ReadEvent{PC: []byte{0, 0}, ID: t}
	if r.p.real {
		re = llrp.ReadEvent{PC: []byte{0x30, 0}, ID: t}
	}
	id, uris, err := r.ef.Search(re)
	a.finished = true
	a.err = err != nil
	a.match = len(uris) > 0
	a.id, a.uris = id, append([]string{}, uris...)
	a.detail = fmt.Sprintf("(%q, %q, %v)", id, uris, err)
	if r.p.real {
		return
	}
	if err != nil && err != errNoMatch {
		return
	}
	a.engine = strings.TrimPrefix(id, "id:")
	if err == nil {
		a.ok = t[0] == 1 && len(uris) == 2 && uris[0] == "to:"+a.engine && uris[1] == "too:"+a.engine
	} else {
		a.ok = t[0] == 0 && len(uris) == 0
	}
	a.ok = a.ok && id == "id:"+a.engine
}

func (r *frun) start(cs []client) {
	for _, c := range cs {
		ans := make([]*answer, len(c.tags))
		for i := range ans {
			ans[i] = &answer{}
		}
		r.answers = append(r.answers, ans)
		n := len(r.answers)
		sched.Go(func() {
			sched.Name(fmt.Sprintf("client %d", n))
			if c.patient {
				for !r.ef.IsActive() {
					sched.Sleep(time.Second)
				}
			}
			for i, t := range c.tags {
				if c.pause && i > 0 {
					sched.Sleep(time.Second)
				}
				r.search(ans[i], t)
			}
		})
	}
}

func (r *frun) rest() {
	e := rest{msgs: len(r.msgs), active: r.ef.IsActive(), elapsed: sched.Elapsed(), searches: map[string]int{}}
	for n, l := range r.log {
		e.searches[n] = len(l)
	}
	e.ticks, r.dropped = sched.Ticks()
	r.rested = append(r.rested, e)
}

func (p *fparams) body() {
	r := &frun{p: p, built: map[string]bool{}, log: map[string][]done{}}
	cur = r
	p.install(r)
	mc := sched.Made(make(chan filtering.ManagementMessage, p.queue))
	sched.Go(func() {
		sched.Name("main program")
		for {
			m := sched.Recv(mc)
			r.msgs = append(r.msgs, m)
			if p.slow > 0 {
				sched.Sleep(p.slow)
			}
		}
	})
	r.ef = filtering.NewEngineFactory(p.subs, p.seconds(), mc)
	sched.Go(func() { sched.Name("factory"); r.ef.Run() })
	if p.poll {
		sched.Go(func() {
			sched.Name("watcher")
			for i := 0; i < 3; i++ {
				r.active = append(r.active, r.ef.IsActive())
			}
		})
	}
	r.start(p.clients)
	sched.WaitIdle()
	for k := 0; ; k++ {
		r.rest()
		if p.early && k == 0 {
			probe(r, &r.rested[0].probe)
		}
		// let the selection settle: in the first interval sleeping clients finish, at
		// the second one all searches have been measured, at the third one nothing is
		// left to be measured
		sched.Freeze()
		for i := 0; i < 3; i++ {
			sched.Extend(p.every())
			sched.WaitIdle()
		}
		if p.slow > 0 { // the main program catches up before the next interval ends
			sched.Extend(p.every() - time.Second)
			sched.WaitIdle()
		}
		if !p.overload {
			r.blocked = unfinished(r)
		}
		r.rest()
		// who is in use?
		a := &answer{}
		probe(r, a)
		r.rested[len(r.rested)-1].probe = *a
		if k >= len(p.rounds) || len(r.blocked) > 0 {
			break
		}
		sched.Thaw()
		r.start(p.rounds[k])
		sched.Extend(time.Duration(p.ticks) * p.every())
		sched.WaitIdle()
	}
	r.end = true
}

// probe asks the factory for an answer when everything is at rest.
func probe(r *frun, a *answer) {
	sched.Freeze()
	t := tag(true, 0)
	if r.p.real {
		t = realTags[0]
	}
	sched.Go(func() { sched.Name("probe"); r.search(a, t) })
	sched.WaitIdle()
}

// unfinished lists the searches that were submitted but not answered although
// nothing can move any more.
func unfinished(r *frun) (out []string) {
	for i, as := range r.answers {
		for k, a := range as {
			if !a.finished {
				// a client that still waits for the factory to become active is fine
				if k == 0 && !r.ef.IsActive() {
					break
				}
				out = append(out, fmt.Sprintf("client %d, search %d", i+1, k+1))
				break
			}
		}
	}
	if len(out) > 0 {
		out = append(out, sched.Blocked()...)
	}
	return
}

// common is what no execution may show.
func common(o *sched.Outcome) (string, string) {
	switch {
	case o.Exit != "":
		return "exit", "the process was ended: " + o.Exit
	case strings.HasPrefix(o.Fail, "panic"):
		return "panic", o.Fail
	case o.Fail != "":
		return "fail", o.Fail
	}
	return "", ""
}

func (p *fparams) scenario(name string, judge func(r *frun) (string, string)) Scenario {
	horizon := 2 * time.Second
	if p.ticks > 0 {
		horizon = time.Duration(p.ticks) * p.every()
	}
	return Scenario{
		Name: name,
		Cfg:  sched.Config{Horizon: horizon, Steps: 50000},
		Body: p.body,
		Judge: func(o *sched.Outcome) (string, string) {
			if k, w := common(o); w != "" {
				return k, w
			}
			r := cur
			if len(r.blocked) > 0 {
				return "blocked", "a search was never answered: " + strings.Join(r.blocked, "; ")
			}
			if !r.end {
				return "stuck", "the scenario did not come to its end"
			}
			return judge(r)
		},
	}
}

func selections(msgs []filtering.ManagementMessage) (out []string) {
	for _, m := range msgs {
		if m.Type == filtering.SelectedEngine {
			out = append(out, m.EngineName)
		}
	}
	return
}

func show(msgs []filtering.ManagementMessage) string {
	var s []string
	for _, m := range msgs {
		switch m.Type {
		case filtering.SelectedEngine:
			s = append(s, "selected("+m.EngineName+")")
		case filtering.TrafficStatus:
			s = append(s, fmt.Sprintf("traffic(%s %d %d)", m.EngineName, m.EventCount, m.MatchedCount))
		case filtering.EngineStatus:
			s = append(s, fmt.Sprintf("throughput(%s %g)", m.EngineName, m.CurrentThroughput))
		default:
			s = append(s, fmt.Sprintf("message(%d %s)", m.Type, m.EngineName))
		}
	}
	return strings.Join(s, " ")
}

func best(names map[string]bool) string {
	b, p := "", -1
	for n := range names {
		if priority[n] > p {
			b, p = n, priority[n]
		}
	}
	return b
}

// answersWellFormed: every search answered while active was answered by an engine
// in use, correctly.
func answersWellFormed(r *frun) (string, string) {
	sel := selections(r.msgs)
	// an engine may answer if it was selected when or after the call began, that is,
	// reported last at that time or later
	used := func(a *answer) bool {
		for _, s := range sel[max(0, a.from-1):] {
			if s == a.engine {
				return true
			}
		}
		return false
	}
	check := func(a *answer, who string) (string, string) {
		if !a.finished {
			return "", ""
		}
		if r.p.real {
			return judgeReal(a, who)
		}
		if !a.active && a.err && a.engine == "" {
			return "", "" // before the factory is active
		}
		if !a.ok {
			return "answer", fmt.Sprintf("%s: tag %x was answered with %s", who, a.tag, a.detail)
		}
		if !used(a) {
			return "unselected", fmt.Sprintf("%s: tag %x was answered by %s, which was not selected at that time: %s", who, a.tag, a.engine, show(r.msgs))
		}
		return "", ""
	}
	for i, as := range r.answers {
		for _, a := range as {
			if k, w := check(a, fmt.Sprintf("client %d", i+1)); w != "" {
				return k, w
			}
		}
	}
	for i := range r.rested {
		if r.rested[i].probe.tag != nil {
			if k, w := check(&r.rested[i].probe, "probe at rest"); w != "" {
				return k, w
			}
		}
	}
	return "", ""
}

// -- C14 -----------------------------------------------------------------------

// judgeDeployment without statistics: the takeovers have increasing priority and
// end with the best engine that finished.
func judgeDeployment(r *frun) (string, string) {
	sel := selections(r.msgs[:r.rested[0].msgs])
	desc := show(r.msgs)
	for i, s := range sel {
		if !r.built[s] {
			return "not-ready", "an engine that is not ready was selected: " + desc
		}
		if i > 0 && priority[s] <= priority[sel[i-1]] {
			return "priority", "an engine took over without a higher priority: " + desc
		}
	}
	want := best(r.built)
	if want != "" && (len(sel) == 0 || sel[len(sel)-1] != want) {
		return "best", fmt.Sprintf("%s finished but the selections were: %s", want, desc)
	}
	if r.rested[0].active != (want != "") {
		return "active", fmt.Sprintf("IsActive is %v with ready engines %v", r.rested[0].active, r.built)
	}
	if k, w := watched(r); w != "" {
		return k, w
	}
	last := r.rested[len(r.rested)-1]
	if want != "" && last.probe.engine != want {
		return "used", fmt.Sprintf("%s should be in use, but the answer was %s", want, last.probe.detail)
	}
	// the engines seen by a sequential client improve
	for _, as := range r.answers {
		p := -1
		for _, a := range as {
			if a.finished && a.ok && a.engine != "" {
				if priority[a.engine] < p {
					return "regress", fmt.Sprintf("a client was answered by %s after a better engine", a.engine)
				}
				p = priority[a.engine]
			}
		}
	}
	return answersWellFormed(r)
}

func watched(r *frun) (string, string) {
	was := false
	for _, a := range r.active {
		if was && !a {
			return "inactive", "the factory became inactive again"
		}
		was = a
	}
	for _, as := range r.answers {
		was := false
		for _, a := range as {
			if a.finished && was && !a.active {
				return "inactive", "the factory became inactive again"
			}
			was = was || a.active
		}
	}
	return "", ""
}

// judgeSelection with statistics: whenever everything has come to rest and one more
// interval has passed, the engine with the highest latest throughput is in use.
func judgeSelection(r *frun) (string, string) {
	for i := 1; i < len(r.rested); i += 2 {
		e := r.rested[i]
		msgs := r.msgs[:e.msgs]
		latest := map[string]float64{}
		for _, m := range msgs {
			if m.Type == filtering.EngineStatus {
				latest[m.EngineName] = m.CurrentThroughput
			}
		}
		if !e.active {
			if len(r.built) > 0 {
				return "inactive", "no engine is selected although some are ready: " + show(msgs)
			}
			continue
		}
		used := e.probe.engine
		sel := selections(msgs)
		if len(sel) == 0 || sel[len(sel)-1] != used {
			return "reported", fmt.Sprintf("the last selection reported is not the engine in use (%s): %s", used, show(msgs))
		}
		if len(latest) == 0 {
			if used != best(r.built) {
				return "best", fmt.Sprintf("nothing was measured; in use is %s with ready engines %v", used, r.built)
			}
			continue
		}
		top := 0.0
		for _, v := range latest {
			top = math.Max(top, v)
		}
		if latest[used] != top {
			return "throughput", fmt.Sprintf("in use is %s, but the latest throughputs are %v: %s", used, latest, show(msgs))
		}
	}
	for _, s := range selections(r.msgs) {
		if s != "" && !r.built[s] {
			return "not-ready", "an engine that is not ready was selected: " + show(r.msgs)
		}
	}
	if k, w := watched(r); w != "" {
		return k, w
	}
	return answersWellFormed(r)
}

// -- C16 -----------------------------------------------------------------------

// judgeTraffic: the traffic reports of an engine partition its searches.
func judgeTraffic(r *frun) (string, string) {
	total := 0
	for _, as := range r.answers {
		total += len(as)
	}
	single := len(r.p.clients) <= 1 && len(r.p.rounds) == 0
	// probes are searches too, the last one is still unreported
	last := r.rested[len(r.rested)-1]
	for _, e := range r.p.engines {
		searches := r.log[e][:last.searches[e]]
		ev, ma := 0, 0
		open := -1 // first search of the interval reported last, while its throughput may follow
		for _, m := range r.msgs[:last.msgs] {
			if m.EngineName != e {
				continue
			}
			switch m.Type {
			case filtering.TrafficStatus:
				if m.EventCount < 0 || m.MatchedCount < 0 || m.MatchedCount > m.EventCount {
					return "counts", "impossible counts: " + show(r.msgs)
				}
				open = ev
				n, k := int(m.EventCount), int(m.MatchedCount)
				if ev+n > len(searches) {
					return "too-many", fmt.Sprintf("%s performed %d searches but reported more: %s", e, len(searches), show(r.msgs))
				}
				if single {
					got := 0
					for _, d := range searches[ev : ev+n] {
						if d.match {
							got++
						}
					}
					if got != k {
						return "matches", fmt.Sprintf("%s: searches %d to %d hold %d matches, %d were reported: %s", e, ev+1, ev+n, got, k, show(r.msgs))
					}
				}
				ev += n
				ma += k
			case filtering.EngineStatus:
				v := m.CurrentThroughput
				if !(v > 0) || math.IsInf(v, 0) || math.IsNaN(v) {
					return "throughput", fmt.Sprintf("throughput %v of %s", v, e)
				}
				if open < 0 {
					return "throughput", fmt.Sprintf("%s reports a throughput before any traffic: %s", e, show(r.msgs))
				}
				if single {
					var w time.Duration
					for _, d := range searches[open:ev] {
						w += d.work
					}
					want := float64(ev-open) / (float64(w.Nanoseconds()) / 1000)
					if math.Abs(v-want) > want/100 {
						return "throughput", fmt.Sprintf("%s: %d events in %v make %g events/us, reported was %g: %s", e, ev-open, w, want, v, show(r.msgs))
					}
				}
			}
		}
		want := 0
		for _, d := range searches {
			if d.match {
				want++
			}
		}
		if ev != len(searches) {
			return "lost", fmt.Sprintf("%s performed %d searches, reported were %d: %s", e, len(searches), ev, show(r.msgs))
		}
		if ma != want {
			return "matches", fmt.Sprintf("%s found %d matches, reported were %d: %s", e, want, ma, show(r.msgs))
		}
	}
	return "", ""
}

// -- C17 -----------------------------------------------------------------------

// judgeNotifications: the streams of messages are what the engines produce.
func judgeNotifications(r *frun) (string, string) {
	last := r.rested[len(r.rested)-1]
	msgs := r.msgs[:last.msgs]
	desc := show(r.msgs)
	traffic := map[string]int{}
	for _, m := range msgs {
		switch m.Type {
		case filtering.TrafficStatus, filtering.EngineStatus, filtering.SelectedEngine:
		default:
			return "type", "a message of another kind arrived: " + desc
		}
	}
	for _, e := range r.p.engines {
		expect := false // a throughput report has to follow
		for _, m := range msgs {
			if m.EngineName != e || m.Type == filtering.SelectedEngine {
				continue
			}
			if m.Type == filtering.TrafficStatus {
				if expect {
					return "lost", fmt.Sprintf("%s: a throughput report is missing: %s", e, desc)
				}
				if m.CurrentThroughput != 0 {
					return "altered", "a traffic report carries a throughput: " + desc
				}
				traffic[e]++
				n := int(m.EventCount)
				expect = n > 0 // every search takes time
			} else {
				if !expect {
					return "duplicate", fmt.Sprintf("%s: a throughput report too many: %s", e, desc)
				}
				expect = false
				if m.EventCount != 0 || m.MatchedCount != 0 {
					return "altered", "a throughput report carries counts: " + desc
				}
			}
		}
		if expect {
			return "lost", fmt.Sprintf("%s: a throughput report is missing: %s", e, desc)
		}
	}
	for _, m := range msgs {
		known := m.EngineName == "" && m.Type == filtering.SelectedEngine
		for _, e := range r.p.engines {
			known = known || m.EngineName == e
		}
		if !known {
			return "altered", "a message names an engine that does not exist: " + desc
		}
	}
	if r.dropped == 0 {
		n := int(last.elapsed / r.p.every())
		for _, e := range r.p.engines {
			if traffic[e] != n {
				return "intervals", fmt.Sprintf("%d intervals passed, %s sent %d traffic reports: %s", n, e, traffic[e], desc)
			}
		}
		if sel := len(selections(msgs)); sel < n || sel > n+len(r.p.engines) {
			return "intervals", fmt.Sprintf("%d intervals passed, %d selections were reported: %s", n, sel, desc)
		}
	}
	for _, e := range r.rested {
		sel := selections(r.msgs[:e.msgs])
		if e.probe.tag == nil || e.probe.err && e.probe.engine == "" {
			continue
		}
		if len(sel) == 0 || sel[len(sel)-1] != e.probe.engine {
			return "selection", fmt.Sprintf("in use is %q, but the selections reported are %q: %s", e.probe.engine, sel, desc)
		}
	}
	return answersWellFormed(r)
}

// judgeOverload: when the main program cannot keep up, what it does receive is still
// the uninterrupted stream of each engine's reports.
func judgeOverload(r *frun) (string, string) {
	desc := show(r.msgs)
	for _, e := range r.p.engines {
		ev, expect := 0, false
		for _, m := range r.msgs {
			if m.EngineName != e || m.Type == filtering.SelectedEngine {
				continue
			}
			if m.Type == filtering.TrafficStatus {
				if expect {
					return "lost", fmt.Sprintf("%s: a throughput report is missing: %s", e, desc)
				}
				n, k := int(m.EventCount), 0
				if ev+n > len(r.log[e]) {
					return "altered", fmt.Sprintf("%s: more searches reported than performed (%d): %s", e, len(r.log[e]), desc)
				}
				for _, d := range r.log[e][ev : ev+n] {
					if d.match {
						k++
					}
				}
				if k != int(m.MatchedCount) {
					return "altered", fmt.Sprintf("%s: searches %d to %d hold %d matches: %s", e, ev+1, ev+n, k, desc)
				}
				ev += n
				expect = n > 0
			} else {
				if !expect {
					return "duplicate", fmt.Sprintf("%s: a throughput report too many: %s", e, desc)
				}
				expect = false
			}
		}
	}
	return "", ""
}

// -- real engines ----------------------------------------------------------------

type realAnswer struct {
	id   string
	uris []string
}

// a subscription table with nested patterns, tags, and what the standard says about
// them
var (
	realSubs = filtering.Subscriptions{
		"http://a.example": {"urn:epc:pat:sgtin-96:3.0614141.812345"},
		"http://b.example": {"urn:epc:pat:sgtin-96:3.0614141.812345.6789"},
		"http://c.example": {"urn:epc:pat:sgtin-96:3.0614141", "urn:epc:pat:sscc-96:0.123456789"},
		"http://d.example": {"urn:epc:pat:sscc-96:3.0614141"},
	}
	realTags = [][]byte{
		{0x30, 0x74, 0x25, 0x7b, 0xf7, 0x19, 0x4e, 0x40, 0, 0, 0x1a, 0x85},
		{0x31, 0x74, 0x25, 0x7b, 0xf4, 0x49, 0x96, 0x02, 0xd2, 0, 0, 0},
		{0x30, 0x74, 0x25, 0x7b, 0xf7, 0x19, 0x4e, 0x40, 0, 0, 0x1a, 0x84},
		{0x30, 0x74, 0x24, 0x7b, 0xf7, 0x19, 0x4e, 0x40, 0, 0, 0x1a, 0x85},
	}
	realWant = map[string]realAnswer{
		string(realTags[0]): {"urn:epc:id:sgtin:0614141.812345.6789", []string{"http://a.example", "http://b.example", "http://c.example"}},
		string(realTags[1]): {"urn:epc:id:sscc:0614141.1234567890", []string{"http://d.example"}},
		string(realTags[3]): {},
		string(realTags[2]): {"urn:epc:id:sgtin:0614141.812345.6788", []string{"http://a.example", "http://c.example"}},
	}
)

func unique(l []string) string {
	l = append([]string{}, l...)
	sort.Strings(l)
	var out []string
	for i, s := range l {
		if i == 0 || s != l[i-1] {
			out = append(out, s)
		}
	}
	return strings.Join(out, " ")
}

func judgeReal(a *answer, who string) (string, string) {
	if !a.active && a.err && a.id == "" {
		return "", ""
	}
	w := realWant[string(a.tag)]
	if a.err != (len(w.uris) == 0) || unique(a.uris) != unique(w.uris) || len(w.uris) > 0 && a.id != w.id {
		return "answer", fmt.Sprintf("%s: tag %x should be answered with %q %q, was %s", who, a.tag, w.id, w.uris, a.detail)
	}
	return "", ""
}
