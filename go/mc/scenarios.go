package main

import (
	"fmt"
	"strings"
	"time"
)

var engineNames = []string{"LegacyEngine", "List", "PatriciaTrie", "SplayTree"}

func init() {
	properties["C14"] = property{
		quick:     2,
		scenarios: c14,
		rule:      "A scenario fixes the set of engines (stubs), which of them never finish, the searching clients, their tags and the times searches take, the statistics intervals explored and the order of map iteration; its schedules are all interleavings of generation, deployment, selection, statistics and clients with at most the stated number of deviations from the default schedule.",
	}
	properties["C15"] = property{
		quick:     2,
		scenarios: c15,
		rule:      "A scenario fixes the engines (stubs or the real ones), the clients (searching at once, or waiting for the factory to become active), their tags, the statistics intervals explored and the order of map iteration; its schedules are all interleavings of generation, deployment, selection, statistics and clients with at most the stated number of deviations from the default schedule. Every search has to return, with the answer of an engine in use.",
	}
	properties["C16"] = property{
		quick:     2,
		scenarios: c16,
		rule:      "A scenario fixes the engines (stubs that take a different virtual time for every search), the clients and which of their tags match, the statistics intervals explored and the order of map iteration; its schedules are all interleavings of searches and interval boundaries with at most the stated number of deviations from the default schedule.",
	}
	properties["C17"] = property{
		quick:     2,
		scenarios: c17,
		rule:      "A scenario fixes the engines (stubs), the clients, the capacity of the management channel, the statistics intervals explored and the order of map iteration; its schedules are all interleavings of generation, selection, statistics and clients with at most the stated number of deviations from the default schedule. The stream of messages the main program receives is parsed with the grammar of what engines and factory produce.",
	}
}

func short(names []string) string {
	var out []string
	for _, n := range names {
		out = append(out, n[:2])
	}
	return strings.Join(out, "")
}

func tags(spec string, profile int) (out [][]byte) {
	for _, c := range spec {
		out = append(out, tag(c == 'm', profile))
	}
	return
}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

func c14(thorough bool) (out []Scenario) {
	add := func(s Scenario, order, bound int) {
		s.Order = order
		s.Name += fmt.Sprintf(" order=%d", order)
		s.Bound = bound
		out = append(out, s)
	}
	// deployment
	for mask := 1; mask < 16; mask++ {
		s := subset(engineNames, mask)
		for stuck := -1; stuck < len(s); stuck++ {
			for order := 0; order < 2; order++ {
				st := map[string]bool{}
				name := "deploy " + short(s)
				if stuck >= 0 {
					st[s[stuck]] = true
					name += " stuck=" + short(s[stuck:stuck+1])
				}
				p := &fparams{engines: s, stuck: st, poll: true}
				add(p.scenario(name+" watched", judgeDeployment), order, 6)
				p = &fparams{engines: s, stuck: st, queue: 128, clients: []client{{tags: tags("mnm", 0)}}}
				add(p.scenario(name+" client", judgeDeployment), order, 6)
			}
		}
	}
	// selection by throughput
	for mask := 1; mask < 16; mask++ {
		s := subset(engineNames, mask)
		if len(s) < 2 || len(s) > 3 {
			continue
		}
		// every order of speeds, reversed in the second round
		for fast := range s {
			a, b := map[string]time.Duration{}, map[string]time.Duration{}
			for i, n := range s {
				a[n] = ms(10 * (1 + (i-fast+len(s))%len(s)))
				b[n] = ms(10 * (1 + (fast-i+len(s)-1+len(s))%len(s)))
			}
			for order := 0; order < 2; order++ {
				p := &fparams{engines: s, work: []map[string]time.Duration{a, b}, queue: 128, ticks: 1,
					clients: []client{{tags: tags("m", 0), patient: true}},
					rounds:  [][]client{{{tags: tags("mn", 1)}}}}
				add(p.scenario(fmt.Sprintf("select %s fast=%s", short(s), short(s[fast:fast+1])), judgeSelection), order, 5)
			}
		}
	}
	c14Long(add)
	return
}

// long histories and other statistics intervals

// c14Long lets the fastest engine change again and again.
func c14Long(add func(s Scenario, order, bound int)) {
	for _, s := range subsets(2, 4) {
		for _, iv := range []int{1, 5, 8} {
			var work []map[string]time.Duration
			var rounds [][]client
			for k := 0; k < 7; k++ {
				w := map[string]time.Duration{}
				for i, n := range s {
					w[n] = time.Duration(10*(1+(i*(1+k%2)+k)%len(s))+i) * time.Microsecond
				}
				work = append(work, w)
				if k > 0 {
					rounds = append(rounds, []client{{tags: tags("mnm"[:1+k%3], k)}})
				}
			}
			if iv != 5 {
				rounds = rounds[:2]
			}
			p := &fparams{engines: s, work: work, queue: 128, ticks: 1, interval: iv,
				clients: []client{{tags: tags("m", 0), patient: true}}, rounds: rounds}
			b := 1
			if len(s) > 2 {
				b = 0
			}
			sc := p.scenario(fmt.Sprintf("%d rounds %s interval=%d", len(rounds), short(s), iv), judgeSelection)
			add(sc, len(s)%2, b)
		}
	}
}

func c16Long(add func(s Scenario, order, bound int)) {
	for _, s := range subsets(1, 2) {
		for _, iv := range []int{1, 8} {
			for _, spec := range []string{"mn", "nmm"} {
				p := &fparams{engines: s, work: speeds(s, 4), queue: 128, ticks: 2, interval: iv, clients: []client{{tags: tags(spec, 0), patient: true, pause: true}}}
				add(p.scenario(fmt.Sprintf("pausing client %s %s interval=%d", spec, short(s), iv), judgeTraffic), 0, 2)
			}
		}
		// many searches within an interval, and over many intervals
		for _, n := range []int{130, 300, 1100} {
			var t [][]byte
			for i := 0; i < n; i++ {
				t = append(t, tag(i%3 == 0, i%4))
			}
			p := &fparams{engines: s, work: speeds(s, 4), queue: 128, ticks: 1, clients: []client{{tags: t, patient: true}}}
			add(p.scenario(fmt.Sprintf("%d searches %s", n, short(s)), judgeTraffic), 0, 0)
		}
		for _, iv := range []int{1, 3} {
			var t [][]byte
			for i := 0; i < 40; i++ {
				t = append(t, tag(i%3 != 0, (i/3)%4))
			}
			p := &fparams{engines: s, work: speeds(s, 4), queue: 128, ticks: 42, interval: iv, clients: []client{{tags: t, patient: true, pause: true}}}
			add(p.scenario(fmt.Sprintf("40 searches, one a second %s interval=%d", short(s), iv), judgeTraffic), 0, 0)
		}
	}
}

func c17Long(add func(s Scenario, order, bound int)) {
	for _, s := range subsets(1, 2) {
		for _, q := range []int{0, 1, 2, 128} {
			for _, iv := range []int{1, 8} {
				p := &fparams{early: true, engines: s, work: speeds(s, 2), queue: q, ticks: 2, interval: iv, clients: []client{{tags: tags("mn", 0), patient: true, pause: true}}}
				add(p.scenario(fmt.Sprintf("two searches %s queue=%d interval=%d", short(s), q, iv), judgeNotifications), 0, 1)
			}
			p := &fparams{early: true, engines: s, work: speeds(s, 4), queue: q, ticks: 60, clients: []client{{tags: tags("mnmmnnmnmnmnmnnnmmm", 0), patient: true, pause: true}}}
			add(p.scenario(fmt.Sprintf("60 intervals %s queue=%d", short(s), q), judgeNotifications), 0, 0)
			p = &fparams{engines: s, work: speeds(s, 4), queue: q, ticks: 3, interval: 20, slow: 2 * time.Second, clients: []client{{tags: tags("mnm", 0), patient: true, pause: true}}}
			add(p.scenario(fmt.Sprintf("slow main program %s queue=%d", short(s), q), judgeNotifications), 0, 1)
			// the main program falls behind more and more
			p = &fparams{engines: s, work: speeds(s, 4), queue: q, ticks: 6, overload: true, slow: 4 * time.Second, clients: []client{{tags: tags("mnm", 0), patient: true, pause: true}}}
			add(p.scenario(fmt.Sprintf("overloaded main program %s queue=%d", short(s), q), judgeOverload), 0, 1)
		}
	}
}

func c15Long(add func(s Scenario, order, bound int), judge func(r *frun) (string, string)) {
	for _, s := range subsets(1, 3) {
		w := speeds(s, 4)
		p := &fparams{engines: s, work: w, ticks: 2, interval: 1, queue: 128, clients: []client{{tags: tags("mnm", 0), patient: true, pause: true}}}
		add(p.scenario("pausing client interval=1 "+short(s), judge), 0, 1)
		var t [][]byte
		for i := 0; i < 60; i++ {
			t = append(t, tag(i%2 == 0, (i/5)%4))
		}
		p = &fparams{engines: s, work: w, ticks: 14, queue: 128, clients: []client{{tags: t, patient: true, pause: true}, {tags: t[1:], pause: true}}}
		add(p.scenario("two long clients "+short(s), judge), 0, 0)
		p = &fparams{engines: s, work: w, ticks: 1, queue: 128, clients: []client{{tags: t[:2]}, {tags: t[1:3]}, {tags: t[:1], patient: true}}}
		add(p.scenario("three clients "+short(s), judge), 0, 1)
	}
}

func adder(out *[]Scenario) func(s Scenario, order, bound int) {
	return func(s Scenario, order, bound int) {
		s.Order = order
		s.Name += fmt.Sprintf(" order=%d", order)
		s.Bound = bound
		*out = append(*out, s)
	}
}

func subsets(min, max int) (out [][]string) {
	for mask := 1; mask < 16; mask++ {
		if s := subset(engineNames, mask); len(s) >= min && len(s) <= max {
			out = append(out, s)
		}
	}
	return
}

// speeds lets a search of engine k take base*(k+1), and profile p scale it.
func speeds(s []string, profiles int) (out []map[string]time.Duration) {
	scale := 1
	for p := 0; p < profiles; p++ {
		m := map[string]time.Duration{}
		for i, n := range s {
			m[n] = time.Duration(scale*(i+2)) * time.Microsecond
		}
		out = append(out, m)
		scale *= 16
	}
	return
}

func c15(thorough bool) (out []Scenario) {
	add := adder(&out)
	judge := func(r *frun) (string, string) {
		if k, w := watched(r); w != "" {
			return k, w
		}
		return answersWellFormed(r)
	}
	for _, s := range subsets(1, 3) {
		for order := 0; order < 2; order++ {
			for ticks := 0; ticks < 2; ticks++ {
				w := speeds(s, 2)
				name := fmt.Sprintf("%s ticks=%d", short(s), ticks)
				p := &fparams{engines: s, work: w, ticks: ticks, queue: 128, clients: []client{{tags: tags("mn", 0)}, {tags: tags("nm", 1)}}}
				add(p.scenario("two eager clients "+name, judge), order, 6)
				p = &fparams{engines: s, work: w, ticks: ticks, queue: 128, clients: []client{{tags: tags("mnm", 0), patient: true}}}
				add(p.scenario("patient client "+name, judge), order, 6)
				if len(s) <= 2 {
					p = &fparams{engines: s, work: w, ticks: ticks, queue: 128, clients: []client{{tags: tags("mn", 0), patient: true}, {tags: tags("mn", 1), patient: true}}}
					add(p.scenario("two patient clients "+name, judge), order, 5)
					p = &fparams{engines: s, work: w, ticks: ticks + 1, queue: 128,
						clients: []client{{tags: tags("mn", 0), patient: true, pause: true}}}
					add(p.scenario("pausing client "+name, judge), order, 5)
					p = &fparams{engines: s, real: true, subs: realSubs, ticks: ticks, queue: 128, clients: []client{{tags: realTags}}}
					add(p.scenario("eager client real "+name, judge), order, 6)
					p = &fparams{engines: s, real: true, subs: realSubs, ticks: ticks, queue: 128,
						clients: []client{{tags: realTags[:2], patient: true}, {tags: realTags[1:], patient: true}}}
					add(p.scenario("two patient clients real "+name, judge), order, 5)
				}
			}
		}
	}
	c15Long(add, judge)
	return
}

func c16(thorough bool) (out []Scenario) {
	add := adder(&out)
	mixed := func(spec string, w int) (t [][]byte) {
		for i, c := range spec {
			t = append(t, tag(c == 'm', (i*w)%4))
		}
		return
	}
	for _, s := range subsets(1, 3) {
		specs := []string{"m", "mn", "nm", "mmn", "mnm", "nmm", "mnn", "nmn", "nnm"}
		if len(s) > 1 {
			specs = []string{"mn", "nm", "mnm", "nmn"}
		}
		if len(s) > 2 {
			specs = []string{"mn", "nm"}
		}
		for _, spec := range specs {
			for ticks := 1; ticks <= 2; ticks++ {
				for order := 0; order < 2; order++ {
					if order > 0 && len(s) == 1 {
						continue
					}
					p := &fparams{engines: s, work: speeds(s, 4), queue: 128, ticks: ticks, clients: []client{{tags: mixed(spec, 3), patient: true}}}
					add(p.scenario(fmt.Sprintf("one client %s %s ticks=%d", spec, short(s), ticks), judgeTraffic), order, 8)
					if len(spec) > 1 && ticks == 2 {
						p = &fparams{engines: s, work: speeds(s, 4), queue: 128, ticks: 3, clients: []client{{tags: mixed(spec, 1), patient: true, pause: true}}}
						add(p.scenario(fmt.Sprintf("pausing client %s %s ticks=3", spec, short(s)), judgeTraffic), order, 8)
					}
				}
			}
		}
		if len(s) <= 2 {
			for _, c := range []string{"m", "n"} {
				for n := 1; n <= 2; n++ {
					p := &fparams{engines: s, work: speeds(s, 4), queue: 128, ticks: 1, clients: []client{
						{tags: mixed(strings.Repeat(c, n), 1), patient: true}, {tags: mixed(strings.Repeat(c, n), 2), patient: true}}}
					add(p.scenario(fmt.Sprintf("two clients %s %s", strings.Repeat(c, n), short(s)), judgeTraffic), 0, 7)
				}
			}
			p := &fparams{engines: s, work: speeds(s, 4), queue: 128, ticks: 1, clients: []client{{tags: mixed("mn", 1), patient: true}, {tags: mixed("nm", 2), patient: true}}}
			add(p.scenario(fmt.Sprintf("two clients mixed %s", short(s)), judgeTraffic), 0, 7)
		}
	}
	c16Long(add)
	return
}

func c17(thorough bool) (out []Scenario) {
	add := adder(&out)
	for _, s := range subsets(1, 3) {
		for _, q := range []int{0, 1, 128} {
			for order := 0; order < 2; order++ {
				if order > 0 && len(s) == 1 {
					continue
				}
				p := &fparams{early: true, engines: s, work: speeds(s, 2), queue: q}
				add(p.scenario(fmt.Sprintf("idle %s queue=%d", short(s), q), judgeNotifications), order, 8)
				for ticks := 1; ticks <= 2; ticks++ {
					p = &fparams{early: true, engines: s, work: speeds(s, 2), queue: q, ticks: ticks, clients: []client{{tags: tags("m", 0), patient: true}}}
					add(p.scenario(fmt.Sprintf("one search %s queue=%d ticks=%d", short(s), q, ticks), judgeNotifications), order, 8)
					if len(s) <= 2 {
						p = &fparams{early: true, engines: s, work: speeds(s, 2), queue: q, ticks: ticks, clients: []client{{tags: tags("mn", 0), patient: true, pause: true}}}
						add(p.scenario(fmt.Sprintf("two searches %s queue=%d ticks=%d", short(s), q, ticks), judgeNotifications), order, 8)
					}
				}
			}
		}
	}
	c17Long(add)
	return
}
