package main

import (
	"fmt"
	"strings"
	"sync/atomic"

	"github.com/iomz/gosstrak/filtering"
)

func init() {
	checks["C13"] = check{
		level: "exploration",
		rule: "every pair of engine kinds, both built from one subscription table that stays in the caller's hands; every sequence of up to 4 (thorough 5) of these steps: add or delete on either engine through a table the caller keeps, search the first engine with every tag, overwrite a pattern of the original table in place, extend its slices in place, drop a destination, overwrite the table last passed to an operation. After every step each table must be what the caller made of it and each engine must answer every tag as the reference model of its own operations does. " +
			"Non-trivial: distinct sequences with a mutation of a table or a second engine's operation.",
		run: runC13,
	}
}

type c13step struct {
	name   string
	engine int
	kind   byte // a d s, o overwrite base, x extend base, r remove destination, l overwrite last table
	dest   string
	pats   []int
}

func runC13(c *Ctx) {
	u := universe{name: "c13", pats: []pat{
		mkpat("urn:epc:pat:sgtin-96:3.0614141"),
		mkpat("urn:epc:pat:sgtin-96:3.0614141.812345"),
		mkpat("urn:epc:pat:sgtin-96:3"),
		mkpat("urn:epc:pat:giai-96:7.12345678901"),
		mkpat("urn:epc:pat:sscc-96:0.123456789"),
	}, tags: []*refTag{
		epcTag("sgtin-96", 3, 5, 614141, 812345, 6789),
		epcTag("sgtin-96", 3, 5, 614141, 812344, 6789),
		epcTag("sgtin-96", 3, 5, 614140, 812345, 6789),
		epcTag("giai-96", 7, 1, 12345678901, 5, 0),
		epcTag("sscc-96", 0, 3, 123456789, 7, 0),
	}}
	steps := []c13step{
		{"search first", 0, 's', "", nil},
		{"add 2,4 to first for a", 0, 'a', "http://a", []int{2, 4}},
		{"add 2 to first for new", 0, 'a', "http://new", []int{2}},
		{"delete 0 from first", 0, 'd', "http://a", []int{0}},
		{"delete 3 from first", 0, 'd', "http://b", []int{3}},
		{"add 4,2 to second for b", 1, 'a', "http://b", []int{4, 2}},
		{"delete 1,0 from second", 1, 'd', "http://a", []int{1, 0}},
		{"overwrite the original table", 0, 'o', "", nil},
		{"extend the original table", 0, 'x', "", nil},
		{"drop a destination of the original table", 0, 'r', "", nil},
		{"overwrite the last table passed", 0, 'l', "", nil},
	}
	depth := 4
	if c.Thorough {
		depth = 5
	}
	// the same with tables of some length
	wide := universe{name: "c13 wide", pats: append([]pat{}, u.pats...), tags: append([]*refTag{}, u.tags...)}
	for i := uint64(0); i < 40; i++ {
		wide.pats = append(wide.pats, mkpat(fmt.Sprintf("urn:epc:pat:grai-96:%d.%06d", i%8, 123456+i/4)))
		if i%8 == 3 {
			wide.tags = append(wide.tags, epcTag("grai-96", int(i%8), 6, 123456+i/4, i, i))
		}
	}
	kinds := append(append([]string{}, binaryKinds...), "LegacyEngine")
	n := 1
	for i := 0; i < depth; i++ {
		n *= len(steps)
	}
	var evals atomic.Int64
	for o := 0; o < 2; o++ {
		setOrder(o)
		c.Parallel(n*len(kinds)*len(kinds), func(i int) {
			ka, kb := kinds[i/n/len(kinds)], kinds[i/n%len(kinds)]
			var seq []c13step
			for x, j := i%n, 0; j < depth; j++ {
				seq = append(seq, steps[x%len(steps)])
				x /= len(steps)
			}
			evals.Add(1)
			c.c13One(ka, kb, seq, &u, o)
		})
	}
	setOrder(0)
	for _, ka := range kinds {
		for _, kb := range kinds {
			c.Parallel(len(steps)*len(steps), func(i int) {
				evals.Add(1)
				c.c13One(ka, kb, []c13step{steps[i/len(steps)], steps[i%len(steps)]}, &wide, 0)
			})
		}
	}
	c.Count(evals.Load(), 0)
	c.Space("sequences x engine pairs", n*len(kinds)*len(kinds))
	c.Sample([]string{"List", "SplayTree", steps[1].name, steps[8].name, steps[5].name})
}

func (c *Ctx) c13One(ka, kb string, seq []c13step, u *universe, o int) {
	// slices with spare capacity and one shared backing array, as a caller may have
	back := make([]string, 0, 16)
	back = append(back, u.pats[0].text, u.pats[1].text, u.pats[3].text)
	base := filtering.Subscriptions{"http://a": back[0:2], "http://b": append(make([]string, 0, 8), back[2])}
	models := []model{
		{holding{0, "http://a"}: true, holding{1, "http://a"}: true, holding{3, "http://b"}: true},
		{holding{0, "http://a"}: true, holding{1, "http://a"}: true, holding{3, "http://b"}: true},
	}
	for i := 5; i < len(u.pats); i++ {
		d := "http://a"
		if i%4 == 0 {
			d = "http://b"
		}
		base[d] = append(base[d], u.pats[i].text)
		for m := range models {
			models[m][holding{i, d}] = true
		}
	}
	var engines [2]filtering.Engine
	var last filtering.Subscriptions
	var names []string
	key := func() string { return ka + "+" + kb + ":" + strings.Join(names, ";") }
	bad := func(format string, args ...any) {
		c.Violate(key(), map[string]any{"engines": []string{ka, kb}, "steps": append([]string{}, names...), "order": o}, "%s and %s from one table, then %q: %s", ka, kb, names, fmt.Sprintf(format, args...))
	}
	type held struct {
		t    filtering.Subscriptions
		want map[string][]string
		full map[string][]string
	}
	var tables []*held
	hold := func(t filtering.Subscriptions) *held {
		h := &held{t: t, want: copyTable(t), full: map[string][]string{}}
		for k, v := range t {
			h.full[k] = append([]string{}, v[:cap(v)]...)
		}
		tables = append(tables, h)
		return h
	}
	refresh := func(h *held) {
		h.want = copyTable(h.t)
		h.full = map[string][]string{}
		for k, v := range h.t {
			h.full[k] = append([]string{}, v[:cap(v)]...)
		}
	}
	bh := hold(base)
	if !c.Try("build:"+ka+kb, nil, func() { engines[0] = newEngine(ka, base); engines[1] = newEngine(kb, base) }) {
		return
	}
	check := func() bool {
		for _, h := range tables {
			if !sameTable(h.t, h.want) {
				bad("a table of the caller changed from %s to %s", showTable(h.want), showTable(h.t))
				return false
			}
			for k, v := range h.t {
				w := v[:cap(v)]
				for i := range w {
					if i < len(h.full[k]) && w[i] != h.full[k][i] {
						bad("the engine wrote %q into the caller's slice of %s", w[i], k)
						return false
					}
				}
			}
		}
		for i, e := range engines {
			for _, t := range u.tags {
				a := search(e, t)
				var msg string
				if e.Name() == "LegacyEngine" {
					msg = checkLegacy(a, models[i], u, t)
				} else {
					msg = checkBinary(a, models[i].table(u), t)
				}
				if msg != "" {
					bad("engine %d (%s), tag %s: %s", i, e.Name(), t.identity, msg)
					return false
				}
			}
		}
		return true
	}
	if !check() {
		return
	}
	ok := c.Try("c13:"+ka+kb, nil, func() {
		for _, s := range seq {
			names = append(names, s.name)
			var cur *held
			switch s.kind {
			case 's':
				for _, t := range u.tags {
					search(engines[0], t)
				}
			case 'a', 'd':
				// an operation after which two destinations hold one pattern is
				// outside of this property (recorded finding of C02)
				skip := false
				for _, p := range s.pats {
					for h := range models[s.engine] {
						skip = skip || s.kind == 'a' && h.pat == p && h.dest != s.dest
					}
				}
				if skip {
					return
				}
				ps := make([]string, 0, 6)
				for _, p := range s.pats {
					ps = append(ps, u.pats[p].text)
				}
				last = filtering.Subscriptions{s.dest: ps}
				cur = hold(last)
				for _, p := range s.pats {
					if s.kind == 'a' {
						models[s.engine][holding{p, s.dest}] = true
					} else {
						delete(models[s.engine], holding{p, s.dest})
					}
				}
				if s.kind == 'a' {
					engines[s.engine].AddSubscription(last)
				} else {
					engines[s.engine].DeleteSubscription(last)
				}
			case 'o':
				for d := range base {
					for i := range base[d] {
						base[d][i] = "urn:epc:pat:sscc-96:0"
					}
				}
				refresh(bh)
			case 'x':
				for d := range base {
					base[d] = append(base[d], "urn:epc:pat:sgtin-96:3.0614140")
				}
				refresh(bh)
			case 'r':
				delete(base, "http://a")
				base["http://z"] = []string{"urn:epc:pat:sgtin-96:3"}
				refresh(bh)
			case 'l':
				if last != nil {
					for d := range last {
						for i := range last[d] {
							last[d][i] = "urn:epc:pat:sscc-96:0"
						}
						last[d] = append(last[d], "urn:epc:pat:sgtin-96:3.0614140")
					}
					for _, h := range tables[1:] {
						if fmt.Sprintf("%p", h.t) == fmt.Sprintf("%p", last) {
							refresh(h)
						}
					}
				}
			}
			_ = cur
			if !check() {
				return
			}
		}
	})
	if ok {
		c.Eval(true, key())
	}
}
