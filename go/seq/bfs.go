package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/iomz/gosstrak/filtering"
)

// Explicit-state exploration of the engines themselves. A state is an engine
// object together with the subscriptions the reference model holds; its identity
// is the deep hash of the engine plus the model. Transitions execute real
// operations on a real engine: the state is recreated by replaying the history
// that first reached it, then the operation is applied. When the frontier empties
// every history, of any length, over these operations has been covered.

type op struct {
	kind byte // 'b' build from a table, 'a' add, 'd' delete, 's' search
	subs map[string][]int
	tag  int
	name string
}

type holding struct {
	pat  int
	dest string
}

type model map[holding]bool // which destination holds which pattern

func (m model) key() string {
	var ks []string
	for h := range m {
		ks = append(ks, fmt.Sprintf("%d=%s", h.pat, h.dest))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func (m model) table(u *universe) map[string][]pat {
	t := map[string][]pat{}
	for h := range m {
		t[h.dest] = append(t[h.dest], u.pats[h.pat])
	}
	for d := range t {
		sort.Slice(t[d], func(a, b int) bool { return t[d][a].text < t[d][b].text })
	}
	return t
}

func (m model) clone() model {
	c := model{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

func (o op) table(u *universe) map[string][]pat {
	t := map[string][]pat{}
	for d, is := range o.subs {
		t[d] = []pat{}
		for _, i := range is {
			t[d] = append(t[d], u.pats[i])
		}
	}
	return t
}

// next is the model after the operation. Unless shared, it reports false for an
// operation after which two destinations would hold one pattern (a recorded finding).
func (o op) next(m model, shared bool) (model, bool) {
	switch o.kind {
	case 's':
		return m, true
	case 'b':
		n := model{}
		for d, is := range o.subs {
			for _, i := range is {
				n[holding{i, d}] = true
			}
		}
		return n, true
	case 'a':
		n := m.clone()
		for d, is := range o.subs {
			for _, i := range is {
				for h := range n {
					if h.pat == i && h.dest != d && !shared {
						return nil, false
					}
				}
				n[holding{i, d}] = true
			}
		}
		return n, true
	case 'd':
		n := m.clone()
		for d, is := range o.subs {
			for _, i := range is {
				delete(n, holding{i, d})
			}
		}
		return n, true
	}
	panic("op")
}

type explorer struct {
	c      *Ctx
	kind   string
	u      *universe
	ops    []op
	limit  int // states
	onNew  func(s *node, e filtering.Engine)
	check  func(a answer, m model, t *refTag) string // search answers
	shared bool                                      // patterns may be held by several destinations
	mu     sync.Mutex
	states map[string]*node
	next   []*node
}

type node struct {
	parent *node
	op     int
	start  op
	depth  int
	model  model
	key    string
}

func (n *node) history(x *explorer) []op {
	var out []op
	for m := n; m != nil; m = m.parent {
		if m.parent == nil {
			out = append(out, m.start)
		} else {
			out = append(out, x.ops[m.op])
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (x *explorer) describe(h []op) []string {
	var out []string
	for _, o := range h {
		out = append(out, x.opString(o))
	}
	return out
}

func (x *explorer) opString(o op) string {
	switch o.kind {
	case 's':
		return fmt.Sprintf("search %s (%x)", x.u.tags[o.tag].identity, x.u.tags[o.tag].id())
	case 'b':
		return fmt.Sprintf("build %v", texts(o.table(x.u)))
	case 'a':
		return fmt.Sprintf("add %v", texts(o.table(x.u)))
	}
	return fmt.Sprintf("delete %v", texts(o.table(x.u)))
}

// apply executes one operation; searches return their answer.
func (x *explorer) apply(e *filtering.Engine, o op) (a answer, panicked string) {
	if p := catch(func() {
		switch o.kind {
		case 'b':
			*e = newEngine(x.kind, toSubs(o.table(x.u)))
		case 'a':
			(*e).AddSubscription(toSubs(o.table(x.u)))
		case 'd':
			(*e).DeleteSubscription(toSubs(o.table(x.u)))
		case 's':
			a = search(*e, x.u.tags[o.tag])
		}
	}); p != nil {
		return a, p.(string)
	}
	return a, ""
}

func (x *explorer) replay(h []op) filtering.Engine {
	var e filtering.Engine
	for _, o := range h {
		x.apply(&e, o)
	}
	return e
}

func (x *explorer) violate(h []op, what string) {
	d := x.describe(h)
	x.c.Violate(fmt.Sprintf("%s:%s:%s", x.kind, strings.Join(d, ";"), what),
		map[string]any{"engine": x.kind, "history": d}, "%s after\n    %s\n  %s", x.kind, strings.Join(d, "\n    "), what)
}

// visit adds a state reached by executing the history; it returns the node when new.
func (x *explorer) visit(parent *node, opIdx int, start op, e filtering.Engine, m model) *node {
	key := fmt.Sprintf("%x|%s", deepHash(e), m.key())
	x.mu.Lock()
	defer x.mu.Unlock()
	if _, ok := x.states[key]; ok {
		return nil
	}
	n := &node{parent: parent, op: opIdx, start: start, model: m, key: key}
	if parent != nil {
		n.depth = parent.depth + 1
	}
	x.states[key] = n
	x.next = append(x.next, n)
	x.c.states.Add(1)
	return n
}

// run explores from the given initial builds until no new state is found.
func (x *explorer) run(starts []op) (complete bool) {
	x.states = map[string]*node{}
	for _, s := range starts {
		var e filtering.Engine
		if _, p := x.apply(&e, s); p != "" {
			x.violate([]op{s}, p)
			return false
		}
		m, _ := s.next(nil, x.shared)
		if n := x.visit(nil, -1, s, e, m); n != nil && x.onNew != nil {
			x.onNew(n, e)
		}
	}
	maxDepth := 0
	for len(x.next) > 0 {
		frontier := x.next
		x.next = nil
		x.c.Parallel(len(frontier), func(i int) {
			n := frontier[i]
			h := n.history(x)
			// the history, executed once more from scratch, leads to the same state
			if k := fmt.Sprintf("%x|%s", deepHash(x.replay(h)), n.model.key()); k == n.key {
				x.c.replays.Add(1)
			} else {
				x.c.Incomplete("a replayed history led to another engine state: " + strings.Join(x.describe(h), "; "))
			}
			for oi, o := range x.ops {
				m, ok := o.next(n.model, x.shared)
				if !ok {
					continue
				}
				e := x.replay(h)
				a, p := x.apply(&e, o)
				x.c.trans.Add(1)
				if p != "" {
					x.violate(append(append([]op{}, h...), o), p)
					return
				}
				if o.kind == 's' {
					x.c.Count(1, int64(min(1, len(a.uris))))
					if msg := x.check(a, m, x.u.tags[o.tag]); msg != "" {
						x.violate(append(append([]op{}, h...), o), msg)
						return
					}
				}
				if nn := x.visit(n, oi, op{}, e, m); nn != nil {
					if x.onNew != nil {
						x.onNew(nn, e)
					}
				}
				if x.c.Stopped() {
					return
				}
			}
		})
		if x.c.Stopped() {
			return false
		}
		if len(frontier) > 0 {
			maxDepth = max(maxDepth, frontier[0].depth)
		}
		if x.limit > 0 && len(x.states) > x.limit {
			x.c.Incomplete(fmt.Sprintf("%s over %s: state limit %d reached after depth %d", x.kind, x.u.name, x.limit, maxDepth))
			return false
		}
	}
	x.c.Space(fmt.Sprintf("%s over %s", x.kind, x.u.name), fmt.Sprintf("%d states, longest shortest history %d: closed under %d operations", len(x.states), maxDepth, len(x.ops)))
	return true
}

// standardOps: add and delete each pattern for its destination, add it for a
// second one, delete it for a destination that may not hold it, and tables of two.
func standardOps(u *universe, pairs bool, second bool) []op {
	var ops []op
	n := len(u.pats)
	for i := 0; i < n; i++ {
		d := fmt.Sprintf("http://d%d", i)
		ops = append(ops, op{kind: 'a', subs: map[string][]int{d: {i}}})
		ops = append(ops, op{kind: 'd', subs: map[string][]int{d: {i}}})
		if second {
			ops = append(ops, op{kind: 'a', subs: map[string][]int{"http://x": {i}}})
		}
		ops = append(ops, op{kind: 'd', subs: map[string][]int{"http://x": {i}}})
	}
	if pairs {
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				di, dj := fmt.Sprintf("http://d%d", i), fmt.Sprintf("http://d%d", j)
				ops = append(ops, op{kind: 'a', subs: map[string][]int{di: {i}, dj: {j}}})
				ops = append(ops, op{kind: 'd', subs: map[string][]int{di: {i}, dj: {j}}})
			}
		}
	}
	return ops
}

func searchOps(u *universe) []op {
	var ops []op
	for i := range u.tags {
		ops = append(ops, op{kind: 's', tag: i})
	}
	return ops
}

// builds returns the initial builds: every subset, one destination per pattern.
func builds(u *universe) []op {
	var out []op
	for m := 0; m < 1<<uint(len(u.pats)); m++ {
		o := op{kind: 'b', subs: map[string][]int{}}
		for i := range u.pats {
			if m>>uint(i)&1 == 1 {
				o.subs[fmt.Sprintf("http://d%d", i)] = []int{i}
			}
		}
		out = append(out, o)
	}
	return out
}

func (u universe) pick(name string, pats []int, tags []int) universe {
	v := universe{name: name}
	for _, i := range pats {
		v.pats = append(v.pats, u.pats[i])
	}
	for _, i := range tags {
		v.tags = append(v.tags, u.tags[i])
	}
	return v
}

// smallUniverses are nestings and branchings small enough for closure.
func smallUniverses(size int) []universe {
	mk := func(name string, pats []string, tags []*refTag) universe {
		u := universe{name: name, tags: tags}
		for _, p := range pats {
			if len(u.pats) < size {
				u.pats = append(u.pats, mkpat(p))
			}
		}
		return u
	}
	isoT := func(ws ...string) (out []*refTag) {
		for _, w := range ws {
			out = append(out, isoTag("17365", w))
		}
		return
	}
	return []universe{
		// a chain, siblings within it, and a stranger
		mk("chain", []string{iso65("A"), iso65("AB"), iso65("ABC"), iso65("AC"), iso65("!"), iso65("ABCD"), iso65("ABD")},
			isoT("ABCD", "ABD", "ACX", "AX", "!X", "AB", "X9")),
		// branching first, chains later; last-bit and first-bit differences
		mk("branch", []string{iso65("A"), iso65("C"), iso65("Q"), iso65("AQ"), iso65("AC"), iso65("CA"), iso65("a")},
			isoT("AQ", "AC", "CAA", "CQ", "Q", "A", "!")),
		mk("epc", []string{
			"urn:epc:pat:sgtin-96:3.0614141.812345",
			"urn:epc:pat:sgtin-96:3.0614141.812345.6789",
			"urn:epc:pat:sgtin-96:3",
			"urn:epc:pat:sscc-96:0.123456789",
			"urn:epc:pat:sgtin-96:3.0614141",
			"urn:epc:pat:grai-96:3",
			"urn:epc:pat:sgtin-96:3.0614141.812345.6788"},
			[]*refTag{
				epcTag("sgtin-96", 3, 5, 614141, 812345, 6789),
				epcTag("sgtin-96", 3, 5, 614141, 812345, 6788),
				epcTag("sgtin-96", 3, 5, 614141, 812344, 6789),
				epcTag("sgtin-96", 3, 5, 614140, 812344, 6789),
				epcTag("sgtin-96", 2, 5, 614141, 812345, 6789),
				epcTag("sscc-96", 0, 3, 123456789, 7, 0),
				epcTag("grai-96", 3, 6, 123456, 1, 1),
			}),
		// tags with the same ID bytes that differ in the PC bits only
		mk("twins", []string{
			"urn:epc:pat:sgtin-96:3",
			"urn:epc:pat:sgtin-96:3.0614141",
			"urn:epc:pat:iso17363:7B",
			"urn:epc:pat:iso17363:7B.CSQ"},
			twins(
				epcTag("sgtin-96", 3, 5, 614141, 812345, 6789),
				isoTag("17363", "7BCSQU3054383"),
				isoTag("17363", "7BCSA"),
			)),
	}
}

// twins adds to each tag others with the same ID bytes and different PC bits: the
// ID read as an item of another ISO standard, and another length field or
// user-memory indicator.
func twins(tags ...*refTag) (out []*refTag) {
	for _, t := range tags {
		out = append(out, t, &refTag{bits: t.bits, pc: [2]byte{t.pc[0] | 1, 0xA2}, identity: "urn:epc:id:iso17365:" + unsix(t.bits)})
		if t.pc[0]&1 == 0 {
			out = append(out, &refTag{bits: t.bits, pc: [2]byte{t.pc[0] | 4, 0}, identity: t.identity})
		}
	}
	return
}

func checkModel(u *universe) func(a answer, m model, t *refTag) string {
	return func(a answer, m model, t *refTag) string { return checkBinary(a, m.table(u), t) }
}
