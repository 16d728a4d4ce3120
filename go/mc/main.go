// Command mc decides the concurrent properties by stateless model checking of the
// real code: the packages of the repository are rewritten onto the controlled
// scheduler in verif.local/v/sched, and every schedule within a deviation bound is
// executed, for every scenario of the property.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/v/sched"
)

// Scenario is a closed program around the code under test: everything that is not
// fixed by its parameters is left to the scheduler.
type Scenario struct {
	Name  string
	Cfg   sched.Config
	Order int // which order maps are ranged over
	Body  func()
	Judge func(o *sched.Outcome) (key, what string)
	Bound int  // deepest bound to go to
	First int  // shallowest bound to start with
	Extra bool // only in the thorough tier
}

type property struct {
	scenarios func(thorough bool) []Scenario
	quick     int // bound every scenario is taken to in the quick tier, time permitting
	rule      string
	assume    []string
}

var properties = map[string]property{}

type task struct {
	Scenario int
	Bound    int
	Until    int64 // unix ms
}

type result struct {
	task
	Stats    sched.Stats
	Millis   int64
	Key      string
	What     string
	Schedule []int
	Trace    []string
	Races    string
}

var (
	scratch string
	report  = os.Stdout
)

func main() {
	id := flag.String("id", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	verif := flag.String("verif", "/verif", "verif directory")
	flag.StringVar(&scratch, "scratch", "", "scratch directory")
	budget := flag.Duration("budget", 4*time.Minute, "time budget")
	worker := flag.Bool("worker", false, "run as a worker")
	replay := flag.String("replay", "", "replay file")
	only := flag.String("only", "", "only scenarios with this substring")
	bound := flag.Int("bound", -1, "with -only: the bound")
	jobs := flag.Int("jobs", runtime.NumCPU(), "workers")
	flag.Parse()
	log.SetOutput(io.Discard)
	p, ok := properties[*id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		os.Exit(2)
	}
	// the code under test prints in places: keep the report clean
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	sc := p.scenarios(*tier == "thorough")
	switch {
	case *worker:
		work(sc)
		return
	case *replay != "":
		doReplay(sc, *replay)
		return
	case *bound >= 0:
		for i := range sc {
			if strings.Contains(sc[i].Name, *only) {
				r := perform(sc, task{i, *bound, time.Now().Add(*budget).UnixMilli()})
				fmt.Fprintf(report, "%s bound %d: %+v %dms %s %s\n", sc[i].Name, *bound, r.Stats, r.Millis, r.Key, clip(r.What, 600))
				if r.What != "" {
					fmt.Fprintln(report, r.Schedule)
					for _, l := range r.Trace {
						fmt.Fprintln(report, "   ", l)
					}
				}
			}
		}
		return
	}
	m := &master{id: *id, tier: *tier, verif: *verif, p: p, sc: sc, start: time.Now(), deadline: time.Now().Add(*budget), jobs: *jobs}
	m.known = map[string]string{}
	m.loadKnown()
	m.run()
	m.evidence()
	fmt.Fprintf(report, "%s %s: %d scenarios, %d schedules, %d states, %d transitions, all scenarios complete to bound %d, %d violations, %.1fs\n",
		m.id, m.tier, len(sc), m.total.Executions, m.total.States, m.total.Transitions, m.depth(), m.violations, time.Since(m.start).Seconds())
	if m.violations > 0 {
		os.Exit(1)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// -- worker ------------------------------------------------------------------

func work(sc []Scenario) {
	debug.SetGCPercent(400)
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(nil, 1<<20)
	out := bufio.NewWriter(report)
	for in.Scan() {
		var t task
		if json.Unmarshal(in.Bytes(), &t) != nil {
			continue
		}
		r := perform(sc, t)
		b, _ := json.Marshal(r)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
		if r.Stats.Hung {
			os.Exit(0) // a runaway goroutine is left behind
		}
	}
}

func perform(sc []Scenario, t task) result {
	s := sc[t.Scenario]
	setOrder(s.Order)
	began := time.Now()
	key := ""
	judge := func(o *sched.Outcome) string {
		k, w := s.Judge(o)
		if w == "" {
			return ""
		}
		key = k
		return w
	}
	st, v := sched.Explore(s.Cfg, t.Bound, time.UnixMilli(t.Until), s.Body, judge, nil)
	r := result{task: t, Stats: st, Millis: time.Since(began).Milliseconds()}
	if v != nil {
		r.Key, r.What, r.Schedule, r.Trace = key, v.What, v.Schedule, v.Trace
		r.Races = raceLog()
	}
	return r
}

// setOrder chooses the order in which the code under test ranges over maps: the
// sorted one, rotated and possibly reversed.
func setOrder(k int) {
	sched.MapOrder = func(n int) []int {
		p := make([]int, n)
		for i := range p {
			p[i] = (i + k/2) % n
		}
		if k%2 == 1 {
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				p[i], p[j] = p[j], p[i]
			}
		}
		return p
	}
}

func raceLog() string {
	if !sched.RaceMode {
		return ""
	}
	files, _ := filepath.Glob(filepath.Join(scratch, fmt.Sprintf("race.%d", os.Getpid())))
	for _, f := range files {
		if b, err := os.ReadFile(f); err == nil {
			return clip(string(b), 6000)
		}
	}
	return ""
}

func doReplay(sc []Scenario, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var v struct {
		Scenario string
		Schedule []int
	}
	json.Unmarshal(b, &v)
	for _, s := range sc {
		if s.Name != v.Scenario {
			continue
		}
		setOrder(s.Order)
		what, trace := sched.Replay(s.Cfg, v.Schedule, s.Body, func(o *sched.Outcome) string { _, w := s.Judge(o); return w })
		for _, l := range trace {
			fmt.Fprintln(report, " ", l)
		}
		fmt.Fprintln(report, "result:", what)
		if what != "" {
			os.Exit(1)
		}
		return
	}
	fmt.Fprintln(os.Stderr, "no such scenario")
	os.Exit(2)
}

// -- master ------------------------------------------------------------------

type master struct {
	id, tier, verif string
	p               property
	sc              []Scenario
	start, deadline time.Time
	jobs            int
	known           map[string]string
	knownSeen       map[string]bool

	mu         sync.Mutex
	total      sched.Stats
	done       []int // bound completed per scenario, -1: none
	exhausted  []bool
	unfinished map[string]bool
	perBound   map[int]int
	longest    int
	violations int
	samples    []any
	exits      map[string]int
	failed     []bool
	byScenario []sched.Stats
}

func (m *master) depth() int {
	d := 1 << 30
	for i, b := range m.done {
		if m.exhausted[i] {
			continue
		}
		if b < d {
			d = b
		}
	}
	if d == 1<<30 {
		d = 999 // everything is exhausted
	}
	return d
}

func (m *master) run() {
	n := len(m.sc)
	m.done = make([]int, n)
	m.exhausted = make([]bool, n)
	m.failed = make([]bool, n)
	m.byScenario = make([]sched.Stats, n)
	m.unfinished = map[string]bool{}
	m.perBound = map[int]int{}
	m.exits = map[string]int{}
	m.knownSeen = map[string]bool{}
	maxBound, minBound := 0, 1<<30
	for i := range m.done {
		m.done[i] = -1
		if b := m.maxBound(i); b > maxBound {
			maxBound = b
		}
		if m.sc[i].First < minBound {
			minBound = m.sc[i].First
		}
	}
	type proc struct {
		cmd *exec.Cmd
		in  io.WriteCloser
		out *bufio.Reader
	}
	startProc := func() *proc {
		cmd := exec.Command(os.Args[0], append([]string{"-worker"}, os.Args[1:]...)...)
		cmd.Stderr = os.Stderr
		if sched.RaceMode {
			cmd.Env = append(os.Environ(), "GORACE=log_path="+filepath.Join(scratch, "race")+" exitcode=0 history_size=2")
		}
		in, _ := cmd.StdinPipe()
		out, _ := cmd.StdoutPipe()
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return &proc{cmd, in, bufio.NewReaderSize(out, 1<<20)}
	}
	procs := make([]*proc, m.jobs)
	for b := minBound; b <= maxBound; b++ {
		var tasks []task
		for i := range m.sc {
			if b >= m.sc[i].First && b <= m.maxBound(i) && !m.exhausted[i] && !m.failed[i] && m.done[i] >= min(b-1, m.sc[i].First-1) {
				tasks = append(tasks, task{Scenario: i, Bound: b})
			}
		}
		if len(tasks) == 0 {
			continue
		}
		// cheap ones first, by what the previous bound took
		sort.SliceStable(tasks, func(x, y int) bool {
			return m.byScenario[tasks[x].Scenario].Executions < m.byScenario[tasks[y].Scenario].Executions
		})
		ch := make(chan task)
		var wg sync.WaitGroup
		for w := range procs {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for t := range ch {
					if m.expired() || m.enough() {
						continue
					}
					t.Until = m.deadline.UnixMilli()
					if procs[w] == nil {
						procs[w] = startProc()
					}
					p := procs[w]
					js, _ := json.Marshal(t)
					fmt.Fprintf(p.in, "%s\n", js)
					line, err := p.out.ReadBytes('\n')
					if err != nil {
						werr := p.cmd.Wait()
						procs[w] = nil
						m.crashed(t, werr)
						continue
					}
					var r result
					if err := json.Unmarshal(line, &r); err != nil {
						m.crashed(t, err)
						continue
					}
					if r.Stats.Hung {
						p.cmd.Wait()
						procs[w] = nil
					}
					m.collect(r)
				}
			}(w)
		}
		for _, t := range tasks {
			ch <- t
		}
		close(ch)
		wg.Wait()
		if m.expired() || m.enough() {
			break
		}
	}
	for _, p := range procs {
		if p != nil {
			p.in.Close()
			p.cmd.Wait()
		}
	}
}

func (m *master) maxBound(i int) int {
	if m.tier == "quick" {
		return min(m.sc[i].Bound, m.p.quick)
	}
	return m.sc[i].Bound
}

func (m *master) expired() bool { return time.Now().After(m.deadline) }

func (m *master) enough() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.violations >= 3
}

// crashed: a worker died, which only code under test can bring about (a fatal
// error of the Go runtime cannot be recovered from).
func (m *master) crashed(t task, err error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.failed[t.Scenario] = true
	m.violate("crash:"+m.sc[t.Scenario].Name, map[string]any{"scenario": m.sc[t.Scenario].Name, "bound": t.Bound},
		fmt.Sprintf("the process running the scenario died: %v", err))
}

func (m *master) collect(r result) {
	m.mu.Lock()
	defer m.mu.Unlock()
	i := r.Scenario
	m.total.Executions += r.Stats.Executions
	m.total.Transitions += r.Stats.Transitions
	m.total.States += r.Stats.States
	m.total.Pruned += r.Stats.Pruned
	m.total.Nondet += r.Stats.Nondet
	m.byScenario[i] = r.Stats
	m.perBound[r.Bound] += r.Stats.Executions
	if r.Stats.Points > m.longest {
		m.longest = r.Stats.Points
	}
	for k, v := range r.Stats.Exits {
		if len(m.exits) < 20 || m.exits[k] > 0 {
			m.exits[k] += v
		}
	}
	name := m.sc[i].Name
	if r.What != "" {
		m.failed[i] = true
		m.violate(r.Key, map[string]any{"scenario": name, "schedule": r.Schedule, "trace": r.Trace, "races": r.Races}, r.What)
		return
	}
	if len(m.samples) < 6 && r.Stats.Executions > 1 {
		m.samples = append(m.samples, map[string]any{"scenario": name, "bound": r.Bound, "schedules": r.Stats.Executions, "states": r.Stats.States, "transitions": r.Stats.Transitions, "choices_in_longest": r.Stats.Points})
	}
	if r.Stats.Complete {
		m.done[i] = r.Bound
		m.exhausted[i] = r.Stats.Cut == 0
	} else {
		m.unfinished[fmt.Sprintf("%s at bound %d", name, r.Bound)] = true
	}
}

func (m *master) violate(key string, input map[string]any, msg string) {
	if what, ok := m.known[key]; ok {
		if !m.knownSeen[key] {
			m.knownSeen[key] = true
			fmt.Fprintf(report, "KNOWN-FINDING: property=%s %s\n", m.id, what)
		}
		return
	}
	m.violations++
	if m.violations > 3 {
		return
	}
	dir := filepath.Join(m.verif, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", m.id, m.violations))
	input["property"] = m.id
	input["key"] = key
	input["what"] = msg
	b, _ := json.MarshalIndent(input, "", " ")
	os.WriteFile(path, b, 0o644)
	fmt.Fprintf(report, "VIOLATION property=%s replay=%s\n  %v: %s\n", m.id, path, input["scenario"], clip(msg, 1500))
}

func (m *master) loadKnown() {
	b, err := os.ReadFile(filepath.Join(m.verif, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if rest, ok := strings.CutPrefix(l, "known: property="+m.id+" key="); ok {
			if i := strings.Index(rest, " "); i >= 0 {
				m.known[rest[:i]] = rest[i+1:]
			}
		}
	}
}

func (m *master) evidence() {
	byDone := map[string]int{}
	exh := 0
	for i, b := range m.done {
		if m.exhausted[i] {
			exh++
			byDone["every schedule"]++
		} else {
			byDone[strconv.Itoa(b)]++
		}
	}
	perBound := map[string]int{}
	for b, n := range m.perBound {
		perBound[strconv.Itoa(b)] = n
	}
	var inc []string
	for s := range m.unfinished {
		inc = append(inc, s)
	}
	sort.Strings(inc)
	if len(inc) > 40 {
		inc = append(inc[:40], fmt.Sprintf("and %d more", len(inc)-40))
	}
	if len(m.samples) == 0 {
		m.samples = []any{map[string]any{"scenarios": len(m.sc)}}
	}
	cov := map[string]any{
		"rule":                            m.p.rule,
		"states":                          m.total.States,
		"transitions":                     m.total.Transitions,
		"traces_validated_against_impl":   m.total.Executions - m.total.Pruned,
		"binding":                         "every schedule counted was executed by the real code of the working tree, rewritten onto the controlled scheduler; the count under traces_validated_against_impl is that of executions that ran to their end and were judged, the others reached a state seen before",
		"schedules":                       m.total.Executions,
		"schedules_pruned_at_known_state": m.total.Pruned,
		"schedules_per_bound":             perBound,
		"scenarios":                       len(m.sc),
		"scenarios_complete_to_bound":     byDone,
		"choices_in_longest_schedule":     m.longest,
		"inconclusive_schedules":          m.total.Nondet,
		"samples":                         m.samples,
		"exhaustive":                      exh == len(m.sc) && m.violations == 0,
	}
	if len(m.exits) > 0 {
		cov["process_exits_seen"] = m.exits
	}
	if len(inc) > 0 {
		cov["incomplete"] = inc
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": m.id, "tier": m.tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"wall_s": time.Since(m.start).Seconds(), "violations": m.violations,
		"assumptions": append([]string{
			"goroutines are sequentially consistent between the synchronising operations the scheduler sees (C21 checks that shared accesses are ordered by them)",
			"the scheduler's channels, mutexes, timers and tickers behave like Go's",
		}, m.p.assume...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(m.verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(m.verif, "evidence", m.id+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
