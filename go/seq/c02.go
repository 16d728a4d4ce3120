package main

import (
	"fmt"
	"sync/atomic"

	"github.com/iomz/gosstrak/filtering"
)

func init() {
	checks["C02"] = check{
		level: "exploration",
		rule: "every subset of each pattern universe, as one destination per pattern, as one destination holding all and split over two destinations, in every enumeration order of the destinations (all permutations up to 4 destinations, sorted and reversed beyond), built into each binary engine and searched for every tag of the universe. " +
			"Tables of up to several hundred patterns (chains, siblings, tries, every layout) are built in several selections as well. Non-trivial: at least one destination must be reported.",
		run: runC02,
	}
}

func c02Splits(ps []pat) []map[string][]pat {
	if len(ps) == 0 {
		return []map[string][]pat{{}}
	}
	own := map[string][]pat{}
	for i, p := range ps {
		own[fmt.Sprintf("http://d%02d", i)] = []pat{p}
	}
	out := []map[string][]pat{own}
	if len(ps) > 1 {
		one := map[string][]pat{"http://all": ps}
		two := map[string][]pat{}
		for i, p := range ps {
			d := fmt.Sprintf("http://h%d", i%2)
			two[d] = append(two[d], p)
		}
		out = append(out, one, two)
	}
	return out
}

func runC02(c *Ctx) {
	us := []universe{mixedUniverse(), wordUniverse("A!", 3), wordUniverse("AC", 3), wordUniverse("AQ", 3)}
	if !c.Thorough {
		us[0].pats = us[0].pats[:13]
		for i := 1; i < len(us); i++ {
			// every word of length 1 and 2, and every other of length 3
			var ps []pat
			for j, p := range us[i].pats {
				if j < 6 || j%2 == i%2 {
					ps = append(ps, p)
				}
			}
			us[i].pats = ps
		}
	}
	c.c02Probe()
	c.runLarge("fresh", binaryKinds, checkBinary)
	var evals, nontriv atomic.Int64
	for _, u := range us {
		n := len(u.pats)
		c.Space("subsets of "+u.String(), 1<<uint(n))
		orders := []int{0, 1}
		for o := 2; o < 26; o++ {
			orders = append(orders, o)
		}
		for _, o := range orders {
			if c.Stopped() {
				break
			}
			setOrder(o)
			c.Parallel(1<<uint(n), func(m int) {
				var ps []pat
				for i, p := range u.pats {
					if m>>uint(i)&1 == 1 {
						ps = append(ps, p)
					}
				}
				if o >= 2 && (len(ps) > 4 || len(ps) < 3) {
					return
				}
				for si, subs := range c02Splits(ps) {
					if o > 0 && si == 1 {
						continue // a single destination has one order
					}
					if o >= 2 && si > 0 {
						continue
					}
					for _, kind := range binaryKinds {
						var e filtering.Engine
						if p := catch(func() { e = newEngine(kind, toSubs(subs)) }); p != nil {
							c.Violate("build-panic:"+kind, texts(subs), "building %s: %v", kind, p)
							return
						}
						for ti, t := range u.tags {
							if kind == "SplayTree" && ti > 0 {
								e = newEngine(kind, toSubs(subs)) // a fresh engine: searching reorganises it
							}
							a := search(e, t)
							if msg := checkBinary(a, subs, t); msg != "" {
								c.Violate(fmt.Sprintf("%s:%v:%s", kind, texts(subs), t.identity),
									map[string]any{"engine": kind, "subscriptions": texts(subs), "pc": fmt.Sprintf("%x", t.pc), "id": fmt.Sprintf("%x", t.id()), "map_order": o},
									"%s built from %v, tag %s (%x): %s", kind, texts(subs), t.identity, t.id(), msg)
								return
							}
							evals.Add(1)
							if len(a.uris) > 0 {
								nontriv.Add(1)
							}
						}
					}
				}
			})
		}
	}
	setOrder(0)
	c.Count(evals.Load(), nontriv.Load())
	c.Sample(map[string]any{"subscriptions": []string{us[0].pats[1].text, us[0].pats[3].text}, "tag": us[0].tags[0].identity, "prefix": us[0].pats[1].prefix})
	c.Sample(map[string]any{"subscriptions": []string{us[1].pats[0].text, us[1].pats[2].text}, "tag": us[1].tags[2].identity})
}

// c02Probe checks the recorded finding: the same pattern held by two destinations.
func (c *Ctx) c02Probe() {
	p := mkpat("urn:epc:pat:sgtin-96:3.0614141.812345.6789")
	subs := map[string][]pat{"http://a": {p}, "http://b": {p}}
	t := epcTag("sgtin-96", 3, 5, 614141, 812345, 6789)
	for _, kind := range binaryKinds {
		for o := 0; o < 2; o++ {
			setOrder(o)
			a := search(newEngine(kind, toSubs(subs)), t)
			c.Eval(true, fmt.Sprint("probe", kind, o))
			if msg := checkBinary(a, subs, t); msg != "" {
				if len(a.set()) == 1 && a.panicked == "" && !a.err && (a.uris[0] == "http://a" || a.uris[0] == "http://b") {
					c.Violate("same-pattern-two-destinations", texts(subs), "%s: %s", kind, msg)
				} else {
					c.Violate("same-pattern-two-destinations-otherwise:"+kind, texts(subs), "%s: %s", kind, msg)
				}
			}
		}
	}
	setOrder(0)
}
