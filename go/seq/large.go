package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/iomz/gosstrak/filtering"
)

// Large tables: shapes no small universe has (long chains of nested patterns,
// hundreds of siblings, full bushy tries), and on each of them the histories that
// walk over the whole table in a handful of orders. They reach behaviour that
// depends on how much an engine holds or how often it has been used.

type shape struct {
	universe
	dest func(i int) string // destination of pattern i
	idle bool               // some destinations hold no pattern
}

func shapes(thorough bool) (out []shape) {
	own := func(i int) string { return fmt.Sprintf("http://d%03d", i) }
	// destinations as long as URIs get, alike but for their ends
	long := func(i int) string {
		return "http://" + strings.Repeat("host.", 60*(i%9+1)) + fmt.Sprintf("/%d", i/2)
	}
	depth, wide, bushy := 40, 18, 6
	if thorough {
		depth, wide, bushy = 80, 40, 8
	}
	chain := strings.Repeat("ABC1Z_", 14)[:depth]
	u := universe{name: fmt.Sprintf("chain of %d", depth)}
	for i := 1; i <= depth; i++ {
		u.pats = append(u.pats, mkpat(iso65(chain[:i])))
		u.tags = append(u.tags, isoTag("17365", chain[:i]))
		u.tags = append(u.tags, isoTag("17365", chain[:i-1]+"!X"))
	}
	out = append(out, shape{u, own, true}, shape{u, func(i int) string { return fmt.Sprintf("http://d%d", i%3) }, false})

	u = universe{name: fmt.Sprintf("%d x %d siblings", wide, wide)}
	letters := "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_^]["[:wide]
	for _, w := range words(letters, 1, 2) {
		u.pats = append(u.pats, mkpat(iso65(w)))
		if len(w) == 2 {
			u.tags = append(u.tags, isoTag("17365", w+"7"))
		}
	}
	u.tags = append(u.tags, isoTag("17365", "A"), isoTag("17365", "?A"), isoTag("17365", "A?"))
	out = append(out, shape{u, own, false}, shape{u, func(i int) string { return "http://all" }, false})

	// a pattern with many subsets that have subsets of their own, next to others
	twigs := 11
	if thorough {
		twigs = 20
	}
	u = universe{name: fmt.Sprintf("a trunk with %d branches of twigs", twigs)}
	for _, t := range []string{"Q", "QR", "R"} {
		if t != "QR" {
			u.pats = append(u.pats, mkpat(iso65(t)))
			u.tags = append(u.tags, isoTag("17365", t), isoTag("17365", t+"!"))
		}
		for i, a := range letters[:twigs] {
			w := t + string(a)
			if i%4 != 2 {
				u.pats = append(u.pats, mkpat(iso65(w)))
				u.tags = append(u.tags, isoTag("17365", w), isoTag("17365", w+"!"))
			}
			for _, b := range letters[:1+i%3] {
				u.pats = append(u.pats, mkpat(iso65(w+string(b))))
				u.tags = append(u.tags, isoTag("17365", w+string(b)+"7"))
				if i%2 == 0 {
					u.pats = append(u.pats, mkpat(iso65(w+string(b)+"K")))
					u.tags = append(u.tags, isoTag("17365", w+string(b)+"K"))
				}
			}
		}
	}
	out = append(out, shape{u, own, false}, shape{u, long, true})

	u = universe{name: fmt.Sprintf("all words of up to %d of two letters", bushy)}
	for _, w := range words("A!", 1, bushy) {
		u.pats = append(u.pats, mkpat(iso65(w)))
		u.tags = append(u.tags, isoTag("17365", w))
	}
	out = append(out, shape{u, own, false})

	u = universe{name: "every scheme, filter and partition"}
	for _, s := range []string{"sgtin-96", "sscc-96", "grai-96", "giai-96"} {
		sch := schemeByName(s)
		for f := 0; f < 8; f++ {
			u.pats = append(u.pats, mkpat(fmt.Sprintf("urn:epc:pat:%s:%d", s, f)))
			for p := 0; p < 7; p++ {
				cp := pow10(12-p)/7 + uint64(f)
				cps := digits(cp, 12-p)
				u.pats = append(u.pats, mkpat(fmt.Sprintf("urn:epc:pat:%s:%d.%s", s, f, cps)))
				ref := uint64(0)
				if d := sch.refDig[p]; d > 0 {
					ref = pow10(min(d, 17)) / 9
					u.pats = append(u.pats, mkpat(fmt.Sprintf("urn:epc:pat:%s:%d.%s.%s", s, f, cps, digits(ref, min(d, 17)))))
				}
				t := epcTag(s, f, p, cp, ref, 5)
				u.tags = append(u.tags, t)
				if f == 3 {
					u.tags = append(u.tags, epcTag(s, f, p, cp-1, ref, 5))
				}
			}
		}
	}
	out = append(out, shape{u, own, false}, shape{u, func(i int) string { return fmt.Sprintf("http://d%d", i%7) }, false})
	return
}

func (s shape) table(in func(i int) bool) map[string][]pat {
	t := map[string][]pat{}
	if s.idle {
		for _, d := range []string{"http://", "http://d005a", "http://zzz"} {
			t[d] = []pat{}
		}
	}
	for i, p := range s.pats {
		if in == nil || in(i) {
			t[s.dest(i)] = append(t[s.dest(i)], p)
		}
	}
	return t
}

// orders in which a history walks over n things
func walks(n int) map[string][]int {
	fw, bw, in, zig := make([]int, n), make([]int, n), make([]int, 0, n), make([]int, 0, n)
	for i := range fw {
		fw[i], bw[i] = i, n-1-i
	}
	for s := 0; s < 7; s++ {
		for i := s; i < n; i += 7 {
			in = append(in, i)
		}
	}
	for i := 0; i < (n+1)/2; i++ {
		zig = append(zig, i)
		if n-1-i != i {
			zig = append(zig, n-1-i)
		}
	}
	return map[string][]int{"forward": fw, "backward": bw, "strided": in, "zigzag": zig}
}

type largeRun struct {
	c     *Ctx
	kind  string
	s     shape
	check func(a answer, subs map[string][]pat, t *refTag) string
}

func (r *largeRun) fail(history, msg string, t *refTag) bool {
	in := map[string]any{"engine": r.kind, "table": r.s.name, "history": history}
	key := fmt.Sprintf("large:%s:%s:%s", r.kind, r.s.name, history)
	if t != nil {
		in["tag"] = t.identity
		in["id"] = fmt.Sprintf("%x", t.id())
		msg = fmt.Sprintf("tag %s: %s", t.identity, msg)
	}
	r.c.Violate(key, in, "%s, %s, %s: %s", r.kind, r.s.name, history, msg)
	return false
}

// all searches the tags; every searched tag has to be answered for the table.
func (r *largeRun) all(e filtering.Engine, tbl map[string][]pat, history string, stride int) bool {
	nt := int64(0)
	for ti := 0; ti < len(r.s.tags); ti += stride {
		t := r.s.tags[ti]
		a := search(e, t)
		if len(a.uris) > 0 {
			nt++
		}
		if msg := r.check(a, tbl, t); msg != "" {
			return r.fail(history, msg, t)
		}
	}
	r.c.Count(int64(len(r.s.tags)/stride), nt)
	return true
}

func (r *largeRun) do(history string, f func()) bool {
	if p := catch(f); p != nil {
		return r.fail(history, fmt.Sprint(p), nil)
	}
	return true
}

func one(d string, p pat) filtering.Subscriptions { return toSubs(map[string][]pat{d: {p}}) }

// runLarge explores the large tables with one engine kind. mode: "fresh" builds,
// "update" walks of additions and deletions, "search" long search histories,
// "save" round trips, "dump" dumps.
func (c *Ctx) runLarge(mode string, kinds []string, check func(answer, map[string][]pat, *refTag) string) {
	ss := shapes(c.Thorough)
	type task struct {
		kind string
		s    shape
	}
	var tasks []task
	for _, k := range kinds {
		for _, s := range ss {
			tasks = append(tasks, task{k, s})
		}
	}
	c.Space("large tables", len(ss))
	for o := 0; o < 2; o++ {
		setOrder(o)
		c.Parallel(len(tasks), func(i int) {
			r := &largeRun{c, tasks[i].kind, tasks[i].s, check}
			name := fmt.Sprintf("map order %d", o)
			switch mode {
			case "fresh":
				r.fresh(name)
			case "update":
				r.update(name)
			case "search":
				r.searches(name)
			case "save":
				r.save(name)
			case "dump":
				r.dumps(name)
			}
		})
		if c.Stopped() {
			break
		}
	}
	setOrder(0)
}

func (r *largeRun) build(tbl map[string][]pat, name string) (e filtering.Engine, ok bool) {
	ok = r.do(name, func() { e = newEngine(r.kind, toSubs(tbl)) })
	return
}

func (r *largeRun) fresh(name string) {
	n := len(r.s.pats)
	for _, sel := range []struct {
		name string
		in   func(i int) bool
	}{
		{"all", nil},
		{"even", func(i int) bool { return i%2 == 0 }},
		{"odd", func(i int) bool { return i%2 == 1 }},
		{"first half", func(i int) bool { return i < n/2 }},
		{"second half", func(i int) bool { return i >= n/2 }},
		{"every fifth", func(i int) bool { return i%5 == 0 }},
	} {
		tbl := r.s.table(sel.in)
		e, ok := r.build(tbl, name+", build "+sel.name)
		if !ok || !r.all(e, tbl, name+", build "+sel.name, 1) {
			return
		}
	}
	// one destination repeated patterns
	tbl := r.s.table(nil)
	for d := range tbl {
		tbl[d] = append(append([]pat{}, tbl[d]...), tbl[d]...)
	}
	e, ok := r.build(tbl, name+", every pattern twice")
	if ok {
		r.all(e, tbl, name+", every pattern twice", 1)
	}
}

func (r *largeRun) update(name string) {
	n := len(r.s.pats)
	step := max(1, n/12)
	ws := walks(n)
	var names []string
	for w := range ws {
		names = append(names, w)
	}
	sort.Strings(names)
	for _, w := range names {
		for _, w2 := range names {
			if !r.c.Thorough && w != w2 && w2 != "backward" {
				continue
			}
			h := fmt.Sprintf("%s, add %s then delete %s", name, w, w2)
			e, ok := r.build(map[string][]pat{}, h)
			if !ok {
				return
			}
			held := map[int]bool{}
			in := func(i int) bool { return held[i] }
			for k, i := range ws[w] {
				held[i] = true
				if !r.do(h, func() { e.AddSubscription(one(r.s.dest(i), r.s.pats[i])) }) {
					return
				}
				if k%step == step-1 && !r.all(e, r.s.table(in), fmt.Sprintf("%s (after %d additions)", h, k+1), 1+n/100) {
					return
				}
			}
			if !r.all(e, r.s.table(in), h+" (all added)", 1) {
				return
			}
			for k, i := range ws[w2] {
				delete(held, i)
				if !r.do(h, func() { e.DeleteSubscription(one(r.s.dest(i), r.s.pats[i])) }) {
					return
				}
				if k%step == step-1 && !r.all(e, r.s.table(in), fmt.Sprintf("%s (after %d deletions)", h, k+1), 1+n/100) {
					return
				}
			}
			if !r.all(e, r.s.table(in), h+" (all deleted)", 1) {
				return
			}
			for _, i := range ws[w] {
				held[i] = true
				if !r.do(h, func() { e.AddSubscription(one(r.s.dest(i), r.s.pats[i])) }) {
					return
				}
			}
			if !r.all(e, r.s.table(in), h+" (and added again)", 1) {
				return
			}
		}
	}
	// whole tables at once
	all := r.s.table(nil)
	h := name + ", add and delete whole tables"
	e, ok := r.build(map[string][]pat{}, h)
	if !ok {
		return
	}
	for k := 0; k < 3; k++ {
		if !r.do(h, func() { e.AddSubscription(toSubs(all)) }) || !r.all(e, all, h+" (added)", 1) {
			return
		}
		half := r.s.table(func(i int) bool { return i%2 == k%2 })
		rest := r.s.table(func(i int) bool { return i%2 != k%2 })
		if !r.do(h, func() { e.DeleteSubscription(toSubs(half)) }) || !r.all(e, rest, h+" (half deleted)", 1) {
			return
		}
	}
	// build, then take out every pattern and put it back
	h = name + ", take out each and put it back"
	if e, ok = r.build(all, h); !ok {
		return
	}
	for i := range r.s.pats {
		if n > 200 && i%3 != 0 && !r.c.Thorough {
			continue
		}
		if !r.do(h, func() { e.DeleteSubscription(one(r.s.dest(i), r.s.pats[i])) }) {
			return
		}
		if !r.all(e, r.s.table(func(j int) bool { return j != i }), fmt.Sprintf("%s (%s out)", h, r.s.pats[i].text), 1+n/60) {
			return
		}
		if !r.do(h, func() { e.AddSubscription(one(r.s.dest(i), r.s.pats[i])) }) {
			return
		}
	}
	r.all(e, all, h+" (end)", 1)
}

// searches runs long histories of searches, with updates in between.
func (r *largeRun) searches(name string) {
	all := r.s.table(nil)
	h := name + ", search history"
	e, ok := r.build(all, h)
	if !ok {
		return
	}
	n := len(r.s.tags)
	ws := walks(n)
	nt, ev := int64(0), int64(0)
	ask := func(i int, tbl map[string][]pat, h string) bool {
		a := search(e, r.s.tags[i])
		ev++
		if len(a.uris) > 0 {
			nt++
		}
		if msg := r.check(a, tbl, r.s.tags[i]); msg != "" {
			return r.fail(h, fmt.Sprintf("search %d: %s", ev, msg), r.s.tags[i])
		}
		return true
	}
	defer func() { r.c.Count(ev, nt) }()
	for round := 0; round < 3; round++ {
		for _, w := range []string{"forward", "backward", "strided", "zigzag"} {
			for _, i := range ws[w] {
				if !ask(i, all, h+" "+w) {
					return
				}
			}
		}
	}
	// one tag many times, then every other
	for _, hot := range []int{0, n / 2, n - 1} {
		for k := 0; k < 600; k++ {
			if !ask(hot, all, h+" (one tag repeated)") {
				return
			}
		}
		for i := 0; i < n; i++ {
			if !ask(i, all, h+" (after one tag repeated)") {
				return
			}
		}
	}
	// every ordered pair of tags (of a sample of up to 60) in succession
	m := min(n, 60)
	for i := 0; i < m; i++ {
		for j := 0; j < m; j++ {
			if !ask(i*n/m, all, h+" (pairs)") || !ask(j*n/m, all, h+" (pairs)") {
				return
			}
		}
	}
	// updates between searches
	held := func(out int) func(int) bool { return func(i int) bool { return i != out } }
	for k := 0; k < len(r.s.pats); k += max(1, len(r.s.pats)/20) {
		d, p := r.s.dest(k), r.s.pats[k]
		hh := fmt.Sprintf("%s, %s taken out and put back", h, p.text)
		if !r.do(hh, func() { e.DeleteSubscription(one(d, p)) }) {
			return
		}
		tbl := r.s.table(held(k))
		for i := 0; i < n; i++ {
			if !ask(i, tbl, hh+" (out)") {
				return
			}
		}
		if !r.do(hh, func() { e.AddSubscription(one(d, p)) }) {
			return
		}
		for i := 0; i < n; i++ {
			if !ask(i, all, hh+" (back)") {
				return
			}
		}
	}
}

func (r *largeRun) save(name string) {
	all := r.s.table(nil)
	h := name + ", save and restore"
	e, ok := r.build(all, h)
	if !ok {
		return
	}
	for step := 0; step < 3; step++ {
		hh := fmt.Sprintf("%s, step %d", h, step)
		tbl := all
		switch step {
		case 1:
			tbl = r.s.table(func(i int) bool { return i%3 != 0 })
			del := r.s.table(func(i int) bool { return i%3 == 0 })
			if !r.do(hh, func() { e.DeleteSubscription(toSubs(del)) }) {
				return
			}
		case 2:
			if !r.do(hh, func() { e.AddSubscription(toSubs(r.s.table(func(i int) bool { return i%3 == 0 }))) }) {
				return
			}
		}
		for _, t := range r.s.tags {
			search(e, t)
		}
		var data []byte
		var err error
		if !r.do(hh, func() { data, err = e.MarshalBinary() }) {
			return
		}
		if err != nil {
			r.fail(hh, err.Error(), nil)
			return
		}
		f := emptyEngine(r.kind)
		if !r.do(hh, func() { err = f.UnmarshalBinary(data) }) {
			return
		}
		if err != nil {
			r.fail(hh, err.Error(), nil)
			return
		}
		if !r.all(f, tbl, hh+" (restored)", 1) || !r.all(e, tbl, hh+" (original)", 1) {
			return
		}
		e = f
	}
}

// checkLegacyTable judges an answer of the text engine.
func checkLegacyTable(a answer, subs map[string][]pat, t *refTag) string {
	matches := map[string]int{}
	for d, ps := range subs {
		for _, p := range ps {
			if legacyMatches(p.text, t) {
				matches[d]++
			}
		}
	}
	var want []string
	for d := range matches {
		want = append(want, d)
	}
	sort.Strings(want)
	return checkAnswer(a, want, matches, t)
}
