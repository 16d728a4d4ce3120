package sched

import (
	"fmt"
	"strings"
	"time"
)

// visited maps fingerprints to the fewest deviations they were reached with.
type visited struct {
	keys []uint64
	cost []uint8
	n    int
	full bool
}

func newVisited(bits uint) *visited {
	return &visited{keys: make([]uint64, 1<<bits), cost: make([]uint8, 1<<bits)}
}

// add reports whether the state is to be explored (not seen as cheaply before).
func (v *visited) add(fp uint64, cost int) bool {
	if fp == 0 {
		fp = 1
	}
	mask := uint64(len(v.keys) - 1)
	for i := fp & mask; ; i = (i + 1) & mask {
		if v.keys[i] == fp {
			if int(v.cost[i]) <= cost {
				return false
			}
			v.cost[i] = uint8(cost)
			return true
		}
		if v.keys[i] == 0 {
			if v.n*4 > len(v.keys)*3 {
				if len(v.keys) < 1<<24 {
					v.grow()
					return v.add(fp, cost)
				}
				v.full = true // no more caching: still explored
				return true
			}
			v.keys[i] = fp
			v.cost[i] = uint8(cost)
			v.n++
			return true
		}
	}
}

func (v *visited) size() int {
	if v == nil {
		return 0
	}
	return v.n
}

func (v *visited) grow() {
	n := &visited{keys: make([]uint64, 2*len(v.keys)), cost: make([]uint8, 2*len(v.keys))}
	mask := uint64(len(n.keys) - 1)
	for j, k := range v.keys {
		if k == 0 {
			continue
		}
		i := k & mask
		for n.keys[i] != 0 {
			i = (i + 1) & mask
		}
		n.keys[i], n.cost[i] = k, v.cost[j]
		n.n++
	}
	*v = *n
}

// NoCache explores states again that were reached before.
var NoCache bool

var worldSeq uint64

// Outcome of one execution.
type Outcome struct {
	Fail   string // "", or what went wrong
	Exit   string // why the program ended the process
	Pruned bool
	Steps  int
	Trace  []string
	w      *World
}

// run executes once, following the prefix and then the default schedule.
func run(cfg *Config, prefix []int, v *visited, body func()) *Outcome {
	worldSeq++
	w := &World{cfg: cfg, seq: worldSeq, driver: make(chan struct{}, 1), prefix: prefix, npre: len(prefix), visited: v, horizon: int64(cfg.Horizon)}
	w.join = new(byte)
	w.many = manyThreads
	w.threads, w.sorted, w.runq = make([]*thread, w.many), make([]*thread, w.many), make([]*thread, w.many+2)
	w.table = make([]entry, 1024)
	w.timers = make([]*stimer, 64)
	if w.cfg.Steps == 0 {
		w.cfg.Steps = 20000
	}
	W = w
	w.running = nil
	t := w.spawn(nil, body)
	t.name = "body"
	w.running = t
	raceDisable()
	t.wake <- struct{}{}
	limit := cfg.MaxTime
	if limit == 0 {
		limit = 20 * time.Second
	}
	hang := time.NewTimer(limit)
	select {
	case <-w.driver:
		hang.Stop()
	case <-hang.C:
		raceEnable()
		return &Outcome{Fail: fmt.Sprintf("hang: thread %s runs for %v without reaching a synchronising operation", threadName(w.running), limit), Trace: w.traceText(), Steps: -1, w: w}
	}
	if w.stuck && w.fail == "" {
		w.fail = "deadlock"
		raceEnable() // formatting synchronises through pools
		w.failArg = strings.Join(Blocked(), "; ")
		raceDisable()
	}
	// tear down
	w.killing = true
	for i := 0; i < w.nthr; i++ {
		u := w.threads[i]
		if u.done {
			<-u.exited
			continue
		}
		w.running = u
		u.wake <- struct{}{}
		<-u.exited
	}
	raceEnable()
	raceAcquire(w.join)
	W = nil
	o := &Outcome{Exit: w.exit, Pruned: w.pruned, Steps: w.steps, w: w}
	if w.fail != "" {
		o.Fail = w.fail
		if w.failArg != "" {
			o.Fail += ": " + w.failArg
		}
	}
	if cfg.Trace {
		o.Trace = w.traceText()
	}
	return o
}

func threadName(t *thread) string {
	if t == nil {
		return "?"
	}
	return fmt.Sprintf("%d %s", t.idx, t.name)
}

func (w *World) traceText() []string {
	var out []string
	for i := 0; i < w.ntrace; i++ {
		s := w.trace[i]
		switch {
		case s.t == nil:
			out = append(out, fmt.Sprintf("clock reaches %v", time.Duration(s.arg)))
		case s.p != nil:
			out = append(out, fmt.Sprintf("thread %s and thread %s: %s %d", threadName(s.t), threadName(s.p), s.s, s.arg))
		case s.s == "send" || s.s == "recv":
			out = append(out, fmt.Sprintf("thread %s: %s %d", threadName(s.t), s.s, s.arg))
		default:
			out = append(out, fmt.Sprintf("thread %s: %s", threadName(s.t), s.s))
		}
	}
	return out
}

// Stats of an exploration.
type Stats struct {
	Executions  int
	Transitions int
	States      int
	Points      int // longest sequence of choices
	Pruned      int
	Complete    bool
	Nondet      int
	Cut         int // alternatives beyond the bound
	Hung        bool
	Exits       map[string]int
}

// Violation found.
type Violation struct {
	What     string
	Schedule []int
	Trace    []string
}

// Explore runs the body under every schedule with at most bound deviations from
// the default one (bound < 0: every schedule), stopping at the deadline. judge
// looks at each execution that ran to its end and returns what is wrong with it.
func Explore(cfg Config, bound int, deadline time.Time, body func(), judge func(o *Outcome) string, root []int) (Stats, *Violation) {
	st := Stats{Exits: map[string]int{}}
	v := newVisited(16)
	if NoCache {
		v = nil
	}
	if bound < 0 {
		bound = 250
	}
	prefix := append([]int{}, root...)
	for {
		o := run(&cfg, prefix, v, body)
		w := o.w
		st.Executions++
		st.Transitions += o.Steps
		if w.npoint > st.Points {
			st.Points = w.npoint
		}
		if o.Pruned {
			st.Pruned++
		}
		if o.Exit != "" && len(st.Exits) < 20 {
			st.Exits[o.Exit]++
		}
		if strings.HasPrefix(o.Fail, "nondeterminism") {
			st.Nondet++
		} else {
			what := ""
			switch {
			case o.Pruned:
			case o.Fail == "step limit":
				st.Nondet++
			default:
				what = judge(o)
			}
			if what != "" {
				sch := make([]int, w.npoint)
				for i := range sch {
					sch[i] = w.points[i].chosen
				}
				st.States = v.size()
				if o.Steps < 0 {
					st.Hung = true
					return st, &Violation{What: what, Schedule: sch, Trace: o.Trace}
				}
				if cfg.NoReplay {
					return st, &Violation{What: what, Schedule: sch}
				}
				c2 := cfg
				c2.Trace = true
				r := run(&c2, sch, nil, body)
				if again := judge(r); again != "" {
					what = again
				} else {
					what += " (the replay did not show it again)"
				}
				return st, &Violation{What: what, Schedule: sch, Trace: r.Trace}
			}
		}
		// next schedule: the deepest choice that has an affordable alternative left
		k := w.npoint - 1
		for ; k >= len(root); k-- {
			p := w.points[k]
			if p.chosen+1 < p.n {
				if p.cost+1 <= bound {
					break
				}
				st.Cut++
			}
		}
		if k < len(root) {
			st.Complete = st.Nondet == 0
			st.States = v.size()
			return st, nil
		}
		np := make([]int, k+1)
		for i := 0; i < k; i++ {
			np[i] = w.points[i].chosen
		}
		np[k] = w.points[k].chosen + 1
		prefix = np
		if time.Now().After(deadline) {
			st.States = v.size()
			return st, nil
		}
	}
}

// Replay runs one schedule and returns what the judge says, with the trace.
func Replay(cfg Config, schedule []int, body func(), judge func(o *Outcome) string) (string, []string) {
	cfg.Trace = true
	o := run(&cfg, schedule, nil, body)
	return judge(o), o.Trace
}
