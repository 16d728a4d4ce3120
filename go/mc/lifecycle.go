package main

import (
	"context"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/iomz/go-llrp"
	"github.com/iomz/gosstrak/filtering"

	"verif.local/v/sched"
)

// C24: the life cycle of an engine generator.

func init() {
	properties["C24"] = property{
		quick:     2,
		scenarios: c24,
		rule:      "A scenario fixes the commands given to an engine generator (initialisations, updates that are given at once or when the generator is ready, by how many threads), the searching clients, whether the engine's construction ends, the capacity of the management channel, how fast its reader is and the statistics intervals explored; its schedules are all interleavings of commands, construction, announcements, searches and interval boundaries with at most the stated number of deviations from the default schedule. Before the first command and when everything has come to rest, every command is tried in the state reached.",
	}
}

// lparams are the parameters of a scenario around one generator.
type lparams struct {
	queue     int
	slow      time.Duration // the reader of the management channel takes so long
	late      time.Duration // the reader begins so late
	inits     int           // threads that initialise
	updaters  []updater
	searchers []string // tags
	stuck     bool     // the construction never ends
	takes     time.Duration
	ticks     int
}

type updater struct {
	n       int  // updates
	patient bool // waits until the generator is ready
	kinds   []filtering.ManagementMessageType
}

type command struct {
	event    string
	patient  bool
	accepted bool
	finished bool
}

type announcement struct {
	mine   bool // the instance is the generator
	engine bool // its engine was there
	state  string
}

type lrun struct {
	p         *lparams
	eg        *filtering.EngineGenerator
	built     int
	given     bool // the table given to the constructor
	anns      []announcement
	other     []filtering.ManagementMessage
	inits     []*command
	updates   []*command
	searches  []*answer
	seen      []string // states, as a watcher saw them
	early     bool     // ready without an engine
	complaint []string
	before    int // announcements before the final trials
	final     string
	end       bool
}

var lcur *lrun

const lname = "List"

func (r *lrun) complain(format string, args ...any) {
	r.complaint = append(r.complaint, fmt.Sprintf(format, args...))
}

func (r *lrun) message(t filtering.ManagementMessageType) *filtering.ManagementMessage {
	return &filtering.ManagementMessage{Type: t, Pattern: "urn:epc:pat:sgtin-96:3.0614141", ReportURI: "http://u.example"}
}

func (r *lrun) command(c *command, event string, t filtering.ManagementMessageType) {
	c.event = event
	var err error
	switch event {
	case "init":
		err = r.eg.FSM.Event(context.Background(), event, realSubs)
	case "update", "rebuild":
		err = r.eg.FSM.Event(context.Background(), event, r.message(t))
	default:
		err = r.eg.FSM.Event(context.Background(), event)
	}
	c.accepted = err == nil
	c.finished = true
}

// try gives every command that is not admissible in the state the generator is in;
// all have to be refused, without any effect.
func (r *lrun) try(state string, events ...string) {
	for _, ev := range events {
		n, b := len(r.anns), r.built
		if got := r.eg.FSM.Current(); got != state {
			r.complain("the generator should be %s, was %s", state, got)
			return
		}
		if r.eg.FSM.Can(ev) {
			r.complain("%s is said to be possible when %s", ev, state)
		}
		c := &command{}
		sched.Go(func() { sched.Name("trial"); r.command(c, ev, filtering.AddSubscription) })
		sched.WaitIdle()
		if !c.finished {
			r.complain("%s when %s never returned", ev, state)
			return
		}
		if c.accepted {
			r.complain("%s was accepted when %s", ev, state)
		}
		if got := r.eg.FSM.Current(); got != state {
			r.complain("%s, refused, changed the state from %s to %s", ev, state, got)
			return
		}
		if len(r.anns) != n || r.built != b {
			r.complain("%s, refused when %s, caused %d announcements and %d constructions", ev, state, len(r.anns)-n, r.built-b)
		}
	}
}

func (p *lparams) body() {
	r := &lrun{p: p}
	lcur = r
	filtering.ResetGlobals()
	build := func(sub filtering.Subscriptions) filtering.Engine {
		r.built++
		r.given = reflect.DeepEqual(sub, realSubs)
		sched.Work(p.takes)
		if p.stuck {
			sched.Block()
		}
		return &lstub{}
	}
	filtering.AvailableEngines = filtering.Engines{lname: build}
	ch := sched.Made(make(chan filtering.ManagementMessage, p.queue))
	r.eg = filtering.NewEngineGenerator(lname, build, 5, ch)
	sched.Go(func() {
		sched.Name("factory")
		if p.late > 0 {
			sched.Sleep(p.late)
		}
		for {
			m := sched.Recv(ch)
			if m.Type == filtering.OnEngineGenerated {
				a := announcement{mine: m.EngineGeneratorInstance == r.eg, state: r.eg.FSM.Current()}
				a.engine = m.EngineGeneratorInstance != nil && m.EngineGeneratorInstance.Engine != nil
				r.anns = append(r.anns, a)
			} else {
				r.other = append(r.other, m)
			}
			if p.slow > 0 {
				sched.Sleep(p.slow)
			}
		}
	})
	sched.Freeze()
	r.try("unavailable", "deploy", "update", "rebuild")
	sched.Thaw()
	for i := 0; i < p.inits; i++ {
		c := &command{}
		r.inits = append(r.inits, c)
		sched.Go(func() { sched.Name("init"); r.command(c, "init", 0) })
	}
	for i, u := range p.updaters {
		cs := make([]*command, u.n)
		for k := range cs {
			cs[k] = &command{event: "update", patient: u.patient}
		}
		r.updates = append(r.updates, cs...)
		sched.Go(func() {
			sched.Name(fmt.Sprintf("updater %d", i+1))
			for k, c := range cs {
				if u.patient {
					for !r.eg.FSM.Is("ready") {
						sched.Sleep(time.Second)
					}
				}
				r.command(c, "update", u.kinds[k%len(u.kinds)])
			}
		})
	}
	for i, spec := range p.searchers {
		as := make([]*answer, len(spec))
		for k := range as {
			as[k] = &answer{tag: tag(spec[k] == 'm', 0)}
		}
		r.searches = append(r.searches, as...)
		sched.Go(func() {
			sched.Name(fmt.Sprintf("client %d", i+1))
			for !r.eg.FSM.Is("ready") {
				sched.Sleep(time.Second)
			}
			for _, a := range as {
				id, uris, err := r.eg.Search(llrp.ReadEvent{PC: []byte{0, 0}, ID: a.tag})
				a.finished = true
				a.detail = fmt.Sprintf("(%q, %q, %v)", id, uris, err)
				if a.tag[0] == 1 {
					a.ok = err == nil && id == "id:me" && reflect.DeepEqual(uris, []string{"to:me"})
				} else {
					a.ok = err == errNoMatch && len(uris) == 0
				}
			}
		})
	}
	sched.Go(func() {
		sched.Name("watcher")
		for i := 0; i < 3; i++ {
			s := r.eg.FSM.Current()
			r.seen = append(r.seen, s)
			if s == "ready" && r.eg.Engine == nil {
				r.early = true
			}
		}
	})
	sched.WaitIdle()
	sched.Freeze()
	for i := 0; i < 3; i++ {
		sched.Extend(5 * time.Second)
		sched.WaitIdle()
	}
	if p.slow > 0 {
		sched.Extend(4 * time.Second)
		sched.WaitIdle()
	}
	r.before = len(r.anns)
	r.final = r.eg.FSM.Current()
	switch r.final {
	case "unavailable":
		r.try("unavailable", "deploy", "update", "rebuild")
	case "generating":
		r.try("generating", "init", "update", "rebuild")
	case "ready":
		r.try("ready", "init", "deploy", "rebuild")
		for k, t := range []filtering.ManagementMessageType{filtering.AddSubscription, filtering.DeleteSubscription} {
			if !r.eg.FSM.Can("update") {
				r.complain("an update is said to be impossible when ready")
			}
			c := &command{}
			sched.Go(func() { sched.Name("final update"); r.command(c, "update", t) })
			sched.WaitIdle()
			if p.slow > 0 {
				sched.Extend(2 * p.slow)
				sched.WaitIdle()
			}
			if !c.accepted || !c.finished {
				r.complain("an update of type %d was not accepted when ready and nothing else went on", t)
			}
			if got := r.eg.FSM.Current(); got != "ready" {
				r.complain("after an update the generator was %s at rest", got)
			}
			if len(r.anns) != r.before+k+1 {
				r.complain("an update at rest was announced %d times", len(r.anns)-r.before-k)
			}
		}
	}
	r.end = true
}

type lstub struct{ stub }

func (*lstub) Search(re llrp.ReadEvent) (string, []string, error) {
	sched.Work(time.Millisecond)
	if re.ID[0] == 1 {
		return "id:me", []string{"to:me"}, nil
	}
	return "", []string{}, errNoMatch
}
func (*lstub) Name() string { return lname }

var rank = map[string]int{"unavailable": 0, "generating": 1, "ready": 2, "pending": 2, "rebuilding": 2}

func judgeLife(r *lrun) (string, string) {
	p := r.p
	if len(r.complaint) > 0 {
		return "trial", strings.Join(r.complaint, "; ")
	}
	acc := func(cs []*command) (n int) {
		for _, c := range cs {
			if c.accepted {
				n++
			}
		}
		return
	}
	for _, c := range append(append([]*command{}, r.inits...), r.updates...) {
		if !c.finished && !(c.patient && (p.inits == 0 || p.stuck)) {
			return "stuck", c.event + " never returned: " + strings.Join(sched.Blocked(), "; ")
		}
	}
	want := "ready"
	switch {
	case p.inits == 0:
		want = "unavailable"
	case p.stuck:
		want = "generating"
	}
	if r.final != want {
		return "state", fmt.Sprintf("at rest the generator was %s, not %s", r.final, want)
	}
	if n := acc(r.inits); p.inits > 0 && n != 1 {
		return "init", fmt.Sprintf("%d of %d initialisations were accepted", n, p.inits)
	}
	if n := min(p.inits, 1); r.built != n {
		return "construction", fmt.Sprintf("the engine was constructed %d times, not %d", r.built, n)
	}
	if p.inits > 0 && !r.given {
		return "table", "the engine was constructed from another table than the one given"
	}
	updates := acc(r.updates)
	if want != "ready" && updates > 0 {
		return "update", fmt.Sprintf("%d updates were accepted although the generator was never ready", updates)
	}
	if want == "ready" {
		if r.before != 1+updates {
			return "announcements", fmt.Sprintf("readiness was announced %d times; 1 construction, %d updates accepted", r.before, updates)
		}
	} else if r.before != 0 {
		return "announcements", "readiness was announced, the generator was never ready"
	}
	// with one patient updater nobody else can be the reason for a refusal
	if len(p.updaters) == 1 && p.updaters[0].patient && want == "ready" && updates != p.updaters[0].n {
		return "refused", fmt.Sprintf("%d of %d updates were accepted, all were given when ready", updates, p.updaters[0].n)
	}
	// the first update anyone gives when ready is accepted
	if want == "ready" && updates == 0 {
		for _, u := range p.updaters {
			if u.patient {
				return "refused", "every update given when ready was refused"
			}
		}
	}
	for i, a := range r.anns {
		if !a.mine || !a.engine || rank[a.state] != 2 {
			return "announcement", fmt.Sprintf("announcement %d: of this generator %v, with an engine %v, state %s", i+1, a.mine, a.engine, a.state)
		}
	}
	if r.early {
		return "early", "the generator was ready without an engine"
	}
	last := 0
	for _, s := range r.seen {
		k, ok := rank[s]
		if !ok || k < last {
			return "states", fmt.Sprintf("states seen: %v", r.seen)
		}
		last = k
	}
	if want == "ready" {
		for i, a := range r.searches {
			if !a.finished {
				return "blocked", fmt.Sprintf("search %d was never answered: %v", i+1, sched.Blocked())
			}
			if !a.ok {
				return "answer", fmt.Sprintf("search %d for %x was answered with %s", i+1, a.tag, a.detail)
			}
		}
	}
	return "", ""
}

func (p *lparams) scenario(name string) Scenario {
	return Scenario{
		Name: name,
		Cfg:  sched.Config{Horizon: max(2*time.Second, time.Duration(p.ticks)*5*time.Second), Steps: 50000},
		Body: p.body,
		Judge: func(o *sched.Outcome) (string, string) {
			if k, w := common(o); w != "" {
				return k, w
			}
			if !lcur.end {
				return "stuck", "the scenario did not come to its end"
			}
			return judgeLife(lcur)
		},
	}
}

func c24(thorough bool) (out []Scenario) {
	add := func(p lparams, name string, bound int) {
		s := p.scenario(name)
		s.Bound = bound
		out = append(out, s)
	}
	A, D := filtering.AddSubscription, filtering.DeleteSubscription
	kinds := [][]filtering.ManagementMessageType{{A}, {D}, {A, D}, {filtering.SelectedEngine}}
	us := func(spec string, ks []filtering.ManagementMessageType) (out []updater) {
		for _, f := range strings.Fields(spec) {
			out = append(out, updater{n: int(f[1] - '0'), patient: f[0] == 'p', kinds: ks})
		}
		return
	}
	for q := 0; q < 2; q++ {
		for inits := 0; inits <= 3; inits++ {
			for _, stuck := range []bool{false, true} {
				for _, u := range []string{"", "p1", "p2", "i1", "p1 p1", "p1 i1", "p2 p2", "i1 i1", "p1 p1 p1"} {
					add(lparams{queue: q, inits: inits, stuck: stuck, updaters: us(u, kinds[2])}, fmt.Sprintf("commands %dinit %s stuck=%v queue=%d", inits, u, stuck, q), 5)
				}
			}
		}
		for _, ks := range kinds {
			for _, u := range []string{"p3", "p2 p1"} {
				for _, sr := range [][]string{{"mn"}, {"m", "n"}} {
					for ticks := 0; ticks <= 2; ticks++ {
						add(lparams{queue: q, inits: 1, updaters: us(u, ks), searchers: sr, ticks: ticks}, fmt.Sprintf("searching %s kinds=%v %v ticks=%d queue=%d", u, ks, sr, ticks, q), 4)
					}
				}
			}
		}
		for _, slow := range []time.Duration{0, 100 * time.Millisecond, 1500 * time.Millisecond} {
			for _, late := range []time.Duration{0, time.Second, 4 * time.Second} {
				for _, takes := range []time.Duration{0, time.Second, 6 * time.Second} {
					for _, u := range []string{"p2", "p1 i2", "p1 p1"} {
						add(lparams{queue: q, inits: 2, updaters: us(u, kinds[2]), searchers: []string{"m"}, ticks: 2, slow: slow, late: late, takes: takes},
							fmt.Sprintf("slow=%v late=%v takes=%v %s queue=%d", slow, late, takes, u, q), 3)
					}
				}
			}
		}
		// long histories of updates
		for _, n := range []int{20, 60} {
			add(lparams{queue: q, inits: 1, updaters: []updater{{n: n, patient: true, kinds: kinds[2]}}, searchers: []string{"mnm"}}, fmt.Sprintf("%d updates queue=%d", n, q), 0)
			add(lparams{queue: q, inits: 1, updaters: []updater{{n: n, patient: true, kinds: kinds[0]}, {n: n, patient: true, kinds: kinds[1]}}}, fmt.Sprintf("2x%d updates queue=%d", n, q), 0)
		}
	}
	return
}
