package main

import (
	"fmt"
	"strings"
	"sync/atomic"

	"github.com/iomz/gosstrak/scheme"
	"github.com/iomz/gosstrak/tdt"
)

func init() {
	checks["C07"] = check{
		level: "exploration",
		rule: "every scheme x partition x filter value x number of given fields; the given fields and the tag's fields range over every pair of boundary values (extremes, all powers of two and ten and their neighbours) one field at a time, and over the full product of a handful of values in all fields, all filter values and all partitions at once; both the subscription side (tdt) and the generator's pattern mode (scheme) against the reference encoding of the tag and the generator's own tag mode. " +
			"Non-trivial: distinct patterns that select at least one and reject at least one of the tags they are compared with.",
		run: runC07,
	}
}

func schemePattern(e epcFields, n int) (filter, text string) {
	t := e.texts()
	for len(t) < 4 {
		t = append(t, "")
	}
	for i := n; i < 4; i++ {
		t[i] = ""
	}
	switch e.s.urn {
	case "sgtin":
		return scheme.MakeEPC(true, "SGTIN-96", t[0], t[1], t[2], "", t[3], "", "")
	case "sscc":
		return scheme.MakeEPC(true, "SSCC-96", t[0], t[1], "", t[2], "", "", "")
	case "grai":
		return scheme.MakeEPC(true, "GRAI-96", t[0], t[1], "", "", t[3], "", t[2])
	case "giai":
		return scheme.MakeEPC(true, "GIAI-96", t[0], t[1], "", "", "", t[2], "")
	}
	panic(e.s.urn)
}

func schemeTag(e epcFields) (bits, pc string) {
	t := e.texts()
	for len(t) < 4 {
		t = append(t, "")
	}
	switch e.s.urn {
	case "sgtin":
		return scheme.MakeEPC(false, "SGTIN-96", t[0], t[1], t[2], "", t[3], "", "")
	case "sscc":
		return scheme.MakeEPC(false, "SSCC-96", t[0], t[1], "", t[2], "", "", "")
	case "grai":
		return scheme.MakeEPC(false, "GRAI-96", t[0], t[1], "", "", t[3], "", t[2])
	case "giai":
		return scheme.MakeEPC(false, "GIAI-96", t[0], t[1], "", "", "", t[2], "")
	}
	panic(e.s.urn)
}

// c07Pattern holds the filters derived for a pattern.
type c07Pattern struct {
	e          epcFields
	n          int
	text       string
	sub, gen   string
	genText    string
	subErr     error
	genTextSub string
}

func (c *Ctx) c07Make(e epcFields, n int) (p c07Pattern, ok bool) {
	p = c07Pattern{e: e, n: n}
	fs := e.texts()[:n]
	p.text = "urn:epc:pat:" + e.s.name + ":" + strings.Join(fs, ".")
	ok = c.Try("make:"+p.text, p.text, func() {
		p.sub, p.subErr = tdt.MakePrefixFilterString(e.s.name, fs)
		p.gen, p.genText = schemePattern(e, n)
		t := strings.Split(strings.TrimPrefix(p.genText, "urn:epc:pat:"), ":")
		if len(t) == 2 {
			p.genTextSub, _ = tdt.MakePrefixFilterString(t[0], strings.Split(t[1], "."))
		}
	})
	if !ok {
		return p, false
	}
	if p.subErr != nil || p.sub == "" {
		c.Violate("reject:"+p.text, p.text, "pattern %s is rejected: %v", p.text, p.subErr)
		return p, false
	}
	if p.gen == "" {
		c.Violate("genreject:"+p.text, p.text, "the generator makes no filter for %s", p.text)
		return p, false
	}
	if p.genTextSub != p.gen {
		c.Violate("gentext:"+p.text, p.text, "the generator returns filter %s for %s, but prints %q which denotes %s", p.gen, p.text, p.genText, p.genTextSub)
		return p, false
	}
	return p, true
}

// c07Pair compares one pattern with one tag.
func (c *Ctx) c07Pair(p *c07Pattern, t epcFields, bits, genBits string) bool {
	want := p.e.agrees(p.n, t)
	bad := func(what, f, b string) bool {
		got := strings.HasPrefix(b, f)
		if got == want {
			return false
		}
		c.Violate(fmt.Sprintf("pair:%s:%s:%s", what, p.text, t), map[string]any{"pattern": p.text, "tag": t.String(), "filter": f, "bits": b},
			"%s: pattern %s (filter %s) selects tag %s (%s): %v, want %v", what, p.text, f, t, b, got, want)
		return true
	}
	return bad("subscription", p.sub, bits) || bad("generator", p.gen, genBits) || bad("generator pattern text", p.genTextSub, genBits)
}

func (c *Ctx) c07Tag(t epcFields) (string, string, bool) {
	var gen string
	if !c.Try("tag:"+t.String(), t.String(), func() { gen, _ = schemeTag(t) }) {
		return "", "", false
	}
	if len(gen) != 96 {
		c.Violate("notag:"+t.String(), t.String(), "the generator makes no 96-bit tag for %s: %q", t, gen)
		return "", "", false
	}
	return t.tag().bits, gen, true
}

func runC07(c *Ctx) {
	type job func()
	var jobs []job
	var evals, nontriv atomic.Int64
	for _, s := range schemes {
		for part := 0; part < 7; part++ {
			rd, rb := s.refRange(part)
			refs, refFew := []uint64{0}, []uint64{0}
			if rd > 0 {
				refs, refFew = boundary(rd, rb), few(rd, rb)
			}
			cps, cpFew := boundary(12-part, 64), few(12-part, 64)
			sers, serFew := []uint64{0}, []uint64{0}
			if s.serial {
				sers, serFew = boundary(12, 38), few(12, 38)
			}
			vals := [3][]uint64{cps, refs, sers}
			fewv := [3][]uint64{cpFew, refFew, serFew}
			filters := []int{0, 1, 2, 3, 4, 5, 6, 7}
			if c.Thorough {
				cps = twoBits(cps, 12-part, 64)
				if rd > 0 {
					refs = twoBits(refs, rd, rb)
				}
				if s.serial {
					sers = twoBits(sers, 12, 38)
				}
				filters = []int{0, 5}
			}
			// one field at a time, all pairs of boundary values
			for which := 0; which < 3; which++ {
				for _, others := range []int{0, 1, 2} {
					for _, f := range filters {
						jobs = append(jobs, func() {
							mk := func(v uint64) epcFields {
								x := [3]uint64{}
								for i := range x {
									switch others {
									case 0:
										x[i] = fewv[i][0]
									case 1:
										x[i] = fewv[i][len(fewv[i])-1]
									default:
										x[i] = fewv[i][len(fewv[i])/2]
									}
								}
								x[which] = v
								return epcFields{s, f, part, x[0], x[1], x[2]}
							}
							var es []epcFields
							for _, v := range vals[which] {
								es = append(es, mk(v))
							}
							c.c07Cross(es, es, &evals, &nontriv)
						})
					}
				}
			}
			// all fields, all filter values
			jobs = append(jobs, func() {
				var es []epcFields
				for f := 0; f < 8; f++ {
					if !c.Thorough && f != 0 && f != 5 {
						continue
					}
					for _, cp := range cpFew {
						for _, r := range refFew {
							for _, sr := range serFew {
								es = append(es, epcFields{s, f, part, cp, r, sr})
							}
						}
					}
				}
				if len(es) > 600 && !c.Thorough {
					var sub []epcFields
					for i := 0; i < len(es); i += 2 {
						sub = append(sub, es[i])
					}
					es = sub
				}
				c.c07Cross(es, es, &evals, &nontriv)
			})
		}
	}
	// across schemes, partitions and filter values
	var all []epcFields
	for _, s := range schemes {
		for part := 0; part < 7; part++ {
			for f := 0; f < 8; f++ {
				for _, n := range []uint64{0, 1, 7} {
					e := epcFields{s: s, filter: f, partition: part, cp: n * 11111}
					if s.refDig[part] > 0 {
						e.ref = n
					}
					if s.serial {
						e.ser = n
					}
					all = append(all, e)
				}
			}
		}
	}
	step := len(all) / 16
	for i := 0; i < len(all); i += step {
		part := all[i:min(i+step, len(all))]
		jobs = append(jobs, func() { c.c07Cross(part, all, &evals, &nontriv) })
	}
	// a filter value left to the generator: the text must name the one it drew
	jobs = append(jobs, func() {
		for _, s := range schemes {
			e := epcFields{s: s, partition: 5, cp: 614141, ref: 0}
			for n := 1; n <= s.nfields(); n++ {
				seen := map[string]bool{}
				for i := 0; i < 4000 && len(seen) < 8; i++ {
					var f, text string
					t := e.texts()
					if n < 2 {
						t[1] = ""
					}
					c.Try("random filter", s.name, func() {
						switch s.urn {
						case "sgtin":
							f, text = scheme.MakeEPC(true, "SGTIN-96", "", t[1], only(n > 2, t[2]), "", only(n > 3, "9"), "", "")
						case "sscc":
							f, text = scheme.MakeEPC(true, "SSCC-96", "", t[1], "", only(n > 2, t[2]), "", "", "")
						case "grai":
							f, text = scheme.MakeEPC(true, "GRAI-96", "", t[1], "", "", only(n > 3, "9"), "", only(n > 2, t[2]))
						case "giai":
							f, text = scheme.MakeEPC(true, "GIAI-96", "", t[1], "", "", "", only(n > 2, t[2]), "")
						}
					})
					want, err := refPattern(text)
					if err != nil || want != f {
						c.Violate("randomfilter:"+s.name+fmt.Sprint(n), text, "the generator returns filter %s for %s with no filter value given, but prints %q which denotes %s (%v)", f, s.name, text, want, err)
						return
					}
					if len(f) >= 11 {
						seen[f[8:11]] = true
					}
				}
				evals.Add(int64(len(seen)))
			}
		}
	})
	c.Parallel(len(jobs), func(i int) { jobs[i]() })
	c.Count(evals.Load(), nontriv.Load())
	c.Space("lattice blocks", len(jobs))
	c.Sample(all[100].String())
	c.Sample(all[300].String())
}

func only(b bool, s string) string {
	if b {
		return s
	}
	return ""
}

func (c *Ctx) c07Cross(pats, tags []epcFields, evals, nontriv *atomic.Int64) {
	type tb struct{ bits, gen string }
	tbs := make([]tb, len(tags))
	for i, t := range tags {
		b, g, ok := c.c07Tag(t)
		if !ok {
			return
		}
		tbs[i] = tb{b, g}
	}
	e := int64(0)
	defer func() { evals.Add(e) }()
	for _, p := range pats {
		for n := 1; n <= p.s.nfields(); n++ {
			if c.Stopped() {
				return
			}
			cp, ok := c.c07Make(p, n)
			if !ok {
				return
			}
			yes, no := false, false
			for i, t := range tags {
				e++
				if p.agrees(n, t) {
					yes = true
				} else {
					no = true
				}
				if c.c07Pair(&cp, t, tbs[i].bits, tbs[i].gen) {
					return
				}
			}
			c.Eval(yes && no, cp.text)
		}
	}
}

// twoBits adds all values with two bits set.
func twoBits(vs []uint64, dig, bits int) []uint64 {
	set := map[uint64]bool{}
	for _, v := range vs {
		set[v] = true
	}
	max := vs[len(vs)-1]
	for i := 0; i < bits; i++ {
		for j := 0; j < i; j++ {
			if v := uint64(1)<<uint(i) | uint64(1)<<uint(j); v <= max {
				set[v] = true
			}
		}
	}
	return sortedSet(set)
}
