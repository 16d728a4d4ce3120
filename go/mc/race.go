package main

import (
	"fmt"
	"time"

	"github.com/iomz/go-llrp"
	"github.com/iomz/gosstrak/filtering"

	"verif.local/v/sched"
)

func init() {
	properties["C21"] = property{
		quick:     2,
		scenarios: c21,
		rule:      "A scenario fixes the engines (stubs or the real ones), the searching clients or the reader's messages, the statistics intervals explored and the order of map iteration; its schedules are all interleavings with at most the stated number of deviations from the default schedule. Each is executed with the Go race detector, whose happens-before relation is that of the synchronising operations of the code under test (the scheduler's own hand-overs are hidden from it).",
	}
}

// raceBody runs a factory with clients; nothing of the harness is shared.
func (p *fparams) raceBody() {
	r := &frun{p: p, built: map[string]bool{}, log: map[string][]done{}}
	p.install(r)
	mc := sched.Made(make(chan filtering.ManagementMessage, p.queue))
	sched.Go(func() {
		sched.Name("main program")
		for {
			m := sched.Recv(mc)
			_ = m
		}
	})
	ef := filtering.NewEngineFactory(p.subs, p.seconds(), mc)
	sched.Go(func() { sched.Name("factory"); ef.Run() })
	if p.poll {
		sched.Go(func() {
			sched.Name("watcher")
			for i := 0; i < 2; i++ {
				ef.IsActive()
			}
		})
	}
	for i, c := range p.clients {
		sched.Go(func() {
			sched.Name(fmt.Sprintf("client %d", i))
			if c.patient {
				for !ef.IsActive() {
					sched.Sleep(time.Second)
				}
			}
			for k, t := range c.tags {
				if c.pause && k > 0 {
					sched.Sleep(time.Second)
				}
				re := llrp.ReadEvent{PC: []byte{0x30, 0}, ID: append([]byte{}, t...)}
				_, uris, _ := ef.Search(re)
				n := 0
				for _, u := range uris {
					n += len(u)
				}
				_ = n
			}
		})
	}
	sched.WaitIdle()
}

var racesSeen int

func raced(o *sched.Outcome) (string, string) {
	if n := sched.RaceErrors(); n > racesSeen {
		racesSeen = n
		return "race", "the race detector reported a data race"
	}
	return "", ""
}

func c21(thorough bool) (out []Scenario) {
	deep := adder(&out)
	add := func(p *fparams, name string, order, bound int) {
		horizon := 2 * time.Second
		if p.ticks > 0 {
			horizon = time.Duration(p.ticks) * p.every()
		}
		cfg := sched.Config{Horizon: horizon, Steps: 50000, NoReplay: true}
		if p.real {
			cfg.NowStep = time.Microsecond
		}
		deep(Scenario{Name: name, Cfg: cfg, Body: p.raceBody, Judge: raced}, order, bound)
	}
	for _, s := range subsets(1, 3) {
		for order := 0; order < 2; order++ {
			if order > 0 && (len(s) == 1 || !thorough) {
				continue
			}
			for ticks := 0; ticks < 2; ticks++ {
				name := fmt.Sprintf("%s ticks=%d", short(s), ticks)
				w := speeds(s, 2)
				bound := 4
				if len(s) == 3 && !thorough {
					bound = 1
				}
				p := &fparams{engines: s, work: w, ticks: ticks, queue: 128, poll: true, clients: []client{{tags: tags("m", 0)}, {tags: tags("n", 1), patient: true}}}
				add(p, "clients and watcher "+name, order, bound)
				p = &fparams{engines: s, work: w, ticks: ticks, queue: 1, clients: []client{{tags: tags("mn", 0), patient: true}, {tags: tags("mn", 1), patient: true}}}
				add(p, "two clients "+name, order, bound)
				if len(s) <= 2 {
					p = &fparams{engines: s, real: true, subs: realSubs, ticks: ticks, queue: 128, clients: []client{{tags: realTags[:2], patient: true}, {tags: realTags[1:], patient: true}}}
					add(p, "two clients real "+name, order, bound)
					p = &fparams{engines: s, real: true, subs: realSubs, ticks: 2, queue: 128, clients: []client{{tags: realTags[:2], patient: true, pause: true}, {tags: realTags[:1], patient: true}}}
					if ticks == 1 {
						add(p, "pausing client real "+name, order, bound)
					}
				}
			}
			if len(s) > 2 && !thorough {
				continue
			}
			for stat := 0; stat < 2; stat++ {
				for real := 0; real < 2; real++ {
					p := &cparams{initial: 1, stat: stat == 1, msgs: messages("RmKnK")}
					p.engines, p.work, p.ticks = s, speeds(s, 4), 1
					if real == 1 {
						p.real = true
						p.msgs = messages("RSK")
						for i, t := range realTags {
							p.msgs = append(p.msgs, rmsg{h: hROAR, tags: []reported{{[]byte{0x30, byte(i)}, t}}})
						}
					}
					x := p.scenario(fmt.Sprintf("collector %s stat=%d real=%d", short(s), stat, real), nil)
					x.Cfg.NoReplay = true
					if real == 1 {
						x.Cfg.NowStep = time.Microsecond
					}
					x.Judge = raced
					bound := 4
					if len(s) == 2 && !thorough {
						bound = 1
					}
					deep(x, order, bound)
				}
			}
		}
	}
	return
}
