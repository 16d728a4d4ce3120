package main

import (
	"fmt"
	"strings"

	"github.com/iomz/gosstrak/filtering"
)

func init() {
	checks["C05"] = check{
		level: "model_checking",
		rule: "every engine state reachable by builds, additions, deletions and searches over the stated universes is serialised and restored into an empty engine of the same kind; the restored engine must be the same state (deep equality), or else answer every search, and every search after every further operation (two deep), alike. The bytes are also given to every other kind and, for the states of the smaller universes, truncated at every length. " +
			"Large tables are saved and restored between updates as well. Non-trivial: round trips of engines holding at least one subscription, wrong-kind restores and truncations.",
		run: runC05,
	}
}

var allKinds = []string{"List", "PatriciaTrie", "SplayTree", "LegacyEngine"}

func runC05(c *Ctx) {
	size := 4
	if c.Thorough {
		size = 5
	}
	c.runLarge("save", binaryKinds, checkBinary)
	c.runLarge("save", []string{"LegacyEngine"}, checkLegacyTable)
	for _, kind := range allKinds {
		for _, u := range smallUniverses(size) {
			u := u
			u.name = fmt.Sprintf("%s/%d", u.name, size)
			x := &explorer{c: c, kind: kind, u: &u, limit: 500000, check: checkModel(&u)}
			x.ops = standardOps(&u, false, true)
			if kind == "LegacyEngine" {
				x.check = func(answer, model, *refTag) string { return "" } // C06 decides its answers
				x.shared = true
			} else {
				x.ops = append(x.ops, searchOps(&u)...)
			}
			x.onNew = func(n *node, e filtering.Engine) { x.roundTrip(n, e, size-1) }
			x.run(builds(&u))
			for _, n := range x.states {
				if n.depth == 2 {
					c.Sample(map[string]any{"engine": kind, "history": x.describe(n.history(x))})
					break
				}
			}
			if c.Stopped() {
				return
			}
		}
	}
}

func (x *explorer) roundTrip(n *node, e filtering.Engine, truncBelow int) {
	c := x.c
	h := n.history(x)
	var data []byte
	var err error
	if p := catch(func() { data, err = e.MarshalBinary() }); p != nil || err != nil {
		x.violate(h, fmt.Sprintf("MarshalBinary: %v %v", p, err))
		return
	}
	restore := func() (filtering.Engine, string) {
		r := emptyEngine(x.kind)
		var err error
		if p := catch(func() { err = r.UnmarshalBinary(append([]byte{}, data...)) }); p != nil {
			return nil, fmt.Sprintf("UnmarshalBinary of its own bytes: %v", p)
		}
		if err != nil {
			return nil, fmt.Sprintf("UnmarshalBinary of its own bytes: %v", err)
		}
		return r, ""
	}
	r, msg := restore()
	if msg != "" {
		x.violate(h, msg)
		return
	}
	c.Count(1, int64(min(1, len(n.model))))
	if deepHash(r) != deepHash(e) {
		if msg := x.alike(h, restore, 2); msg != "" {
			x.violate(h, "restored engine: "+msg)
			return
		}
	}
	for _, k := range allKinds {
		if k == x.kind {
			continue
		}
		o := emptyEngine(k)
		var err error
		p := catch(func() { err = o.UnmarshalBinary(append([]byte{}, data...)) })
		if p != nil || err == nil {
			x.violate(h, fmt.Sprintf("restoring the bytes into a %s: error %v, panic %v", k, err, p))
			return
		}
		c.Count(1, 1)
	}
	if len(n.model) <= truncBelow {
		for l := 0; l < len(data); l++ {
			o := emptyEngine(x.kind)
			var err error
			p := catch(func() { err = o.UnmarshalBinary(append([]byte{}, data[:l]...)) })
			if p != nil || err == nil {
				x.violate(h, fmt.Sprintf("restoring the first %d of %d bytes: error %v, panic %v", l, len(data), err, p))
				return
			}
			c.Count(1, 1)
		}
	}
}

// alike compares the state with its restored copy by behaviour: all searches, and
// all searches after every operation sequence up to the depth.
func (x *explorer) alike(h []op, restore func() (filtering.Engine, string), depth int) string {
	var rec func(seq []op, d int) string
	rec = func(seq []op, d int) string {
		for ti, t := range x.u.tags {
			e := x.replay(append(append([]op{}, h...), seq...))
			r, msg := restore()
			if msg != "" {
				return msg
			}
			for _, o := range seq {
				if _, p := x.apply(&r, o); p != "" {
					return fmt.Sprintf("%s: %s", x.opString(o), p)
				}
			}
			a, b := search(e, t), search(r, t)
			x.c.Count(1, 0)
			if strings.Join(a.set(), " ") != strings.Join(b.set(), " ") || a.err != b.err || a.identity != b.identity || a.panicked != b.panicked {
				return fmt.Sprintf("after %v, search %s: original %v, restored %v", x.describe(seq), x.u.tags[ti].identity, a, b)
			}
		}
		if d == 0 {
			return ""
		}
		for _, o := range x.ops {
			if o.kind == 's' {
				continue
			}
			if msg := rec(append(append([]op{}, seq...), o), d-1); msg != "" {
				return msg
			}
		}
		return ""
	}
	return rec(nil, depth)
}
