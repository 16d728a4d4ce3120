package main

import (
	"fmt"
	"strings"

	"github.com/iomz/gosstrak/filtering"
)

func init() {
	checks["C03"] = check{
		level: "model_checking",
		rule: "all engine states reachable from every initial table by any sequence of single and two-pattern additions and deletions, including additions of held patterns and deletions for destinations that do not hold them; in each state every tag is searched and compared with the reference and with a freshly built engine. " +
			"Large tables are added and deleted along complete walks as well. Non-trivial: searches that report at least one destination.",
		run: func(c *Ctx) { c.exploreEngines(false) },
	}
	checks["C04"] = check{
		level: "model_checking",
		rule: "all engine states reachable by any sequence of searches, additions and deletions; every search transition's answer is compared with the reference answer for the current subscriptions. " +
			"Large tables are searched for all tags along long histories as well. Non-trivial: searches that report at least one destination.",
		run: func(c *Ctx) { c.exploreEngines(true) },
	}
}

func (c *Ctx) exploreEngines(withSearch bool) {
	type job struct {
		kind  string
		size  int
		limit int
	}
	var jobs []job
	if withSearch {
		jobs = []job{{"List", 4, 0}, {"PatriciaTrie", 5, 0}, {"SplayTree", 5, 0}}
		if c.Thorough {
			jobs = []job{{"List", 6, 0}, {"PatriciaTrie", 6, 0}, {"SplayTree", 5, 0}, {"SplayTree", 6, 400000}}
		}
	} else {
		jobs = []job{{"List", 5, 0}, {"PatriciaTrie", 5, 0}, {"SplayTree", 5, 0}}
		if c.Thorough {
			jobs = []job{{"List", 6, 0}, {"PatriciaTrie", 7, 0}, {"SplayTree", 6, 0}, {"SplayTree", 7, 600000}}
		}
	}
	if withSearch {
		c.runLarge("search", binaryKinds, checkBinary)
	} else {
		c.runLarge("update", binaryKinds, checkBinary)
	}
	for o := 0; o < 2; o++ {
		setOrder(o)
		for _, j := range jobs {
			if o == 1 && c.Thorough && j.limit > 0 {
				continue
			}
			for _, u := range smallUniverses(j.size) {
				u := u
				u.name = fmt.Sprintf("%s/%d order %d", u.name, j.size, o)
				if j.limit == 0 {
					j.limit = 2_000_000
				}
				x := &explorer{c: c, kind: j.kind, u: &u, limit: j.limit, check: checkModel(&u)}
				second := j.size <= 5
				x.ops = standardOps(&u, !withSearch || j.size <= 5, second)
				if withSearch {
					x.ops = append(x.ops, searchOps(&u)...)
				} else {
					x.onNew = func(n *node, e filtering.Engine) { x.compareFresh(n, e) }
				}
				x.run(builds(&u))
				if len(x.states) > 3 {
					for _, n := range x.states {
						if n.depth >= 2 {
							c.Sample(map[string]any{"engine": j.kind, "history": x.describe(n.history(x))})
							break
						}
					}
				}
				if c.Stopped() {
					return
				}
			}
		}
	}
	setOrder(0)
}

// compareFresh searches every tag in the new state and in a fresh engine.
func (x *explorer) compareFresh(n *node, e filtering.Engine) {
	h := n.history(x)
	tbl := n.model.table(x.u)
	for ti, t := range x.u.tags {
		if ti > 0 && x.kind == "SplayTree" {
			e = x.replay(h) // each tag as the first search of this state
		}
		a := search(e, t)
		x.c.Count(1, int64(min(1, len(a.uris))))
		if msg := checkBinary(a, tbl, t); msg != "" {
			x.violate(append(append([]op{}, h...), op{kind: 's', tag: ti}), msg)
			return
		}
		var f filtering.Engine
		if p := catch(func() { f = newEngine(x.kind, toSubs(tbl)) }); p != nil {
			x.violate(h, fmt.Sprintf("rebuilding from %v: %v", texts(tbl), p))
			return
		}
		b := search(f, t)
		if strings.Join(a.set(), " ") != strings.Join(b.set(), " ") || a.err != b.err || a.identity != b.identity {
			x.violate(append(append([]op{}, h...), op{kind: 's', tag: ti}), fmt.Sprintf("answers %v, a rebuilt engine %v", a, b))
			return
		}
	}
}
