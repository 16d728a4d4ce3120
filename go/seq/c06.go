package main

import (
	"fmt"
	"sort"
	"strings"
)

func init() {
	checks["C06"] = check{
		level: "model_checking",
		rule: "all states of the text engine reachable by any sequence of additions and deletions (a pattern may be held by several destinations) over universes of well-formed and malformed patterns; in every state every tag, including untranslatable ones, is searched and compared with the reference. In addition every field-boundary lattice element (pattern field a proper prefix, equal, extension or different from the tag's). " +
			"Large tables are built, updated and searched as well. Non-trivial: searches that report a destination, and searches a mere character prefix would wrongly report.",
		run: runC06,
	}
}

// legacyMatches is the meaning of a pattern for the text engine.
func legacyMatches(text string, t *refTag) bool {
	p := strings.Split(text, ":")
	if len(p) != 5 || p[0] != "urn" || p[1] != "epc" || p[2] != "pat" {
		return false
	}
	id := strings.TrimPrefix(t.identity, "urn:epc:id:")
	i := strings.Index(id, ":")
	scheme, rest := id[:i], id[i+1:]
	if strings.HasPrefix(p[3], "iso") {
		if p[3] != "iso17363" && p[3] != "iso17365" {
			return false
		}
		return scheme == p[3] && strings.HasPrefix(rest, strings.ReplaceAll(p[4], ".", ""))
	}
	s := schemeByName(p[3])
	if s == nil || s.urn != scheme {
		return false
	}
	want := strings.Split(p[4], ".")[1:]
	have := strings.Split(rest, ".")
	if len(want) > len(have) {
		return false
	}
	for i, f := range want {
		if have[i] != f {
			return false
		}
	}
	return true
}

func checkLegacy(a answer, m model, u *universe, t *refTag) string {
	matches := map[string]int{}
	if t.identity != "" {
		for h := range m {
			if legacyMatches(u.pats[h.pat].text, t) {
				matches[h.dest]++
			}
		}
	}
	var want []string
	for d := range matches {
		want = append(want, d)
	}
	sort.Strings(want)
	return checkAnswer(a, want, matches, t)
}

func runC06(c *Ctx) {
	for _, m := range []string{"fresh", "update", "search"} {
		c.runLarge(m, []string{"LegacyEngine"}, checkLegacyTable)
	}
	P := func(ss ...string) (out []pat) {
		for _, s := range ss {
			out = append(out, pat{text: s})
		}
		return
	}
	bad := &refTag{bits: "1111111111111111", pc: [2]byte{0x30, 0}}
	us := []universe{
		{name: "epc", pats: P(
			"urn:epc:pat:sgtin-96:3.0614141.812345",
			"urn:epc:pat:sgtin-96:3.0614141.812345.6789",
			"urn:epc:pat:sgtin-96:3",
			"urn:epc:pat:sgtin-96:1.061414",
			"urn:epc:pat:sgtin-96:3.0614141.812345.67"),
			tags: []*refTag{
				epcTag("sgtin-96", 3, 5, 614141, 812345, 6789),
				epcTag("sgtin-96", 1, 5, 614141, 812345, 67),
				epcTag("sgtin-96", 1, 5, 614141, 812344, 67),
				epcTag("sgtin-96", 0, 6, 61414, 1812345, 6789),
				epcTag("sscc-96", 0, 5, 614141, 812345, 0),
				bad,
			}},
		{name: "mixed", pats: P(
			"urn:epc:pat:giai-96:0.12345678901.5",
			"urn:epc:pat:grai-96:0.123456.000001.1",
			"urn:epc:pat:sscc-96:0.123456789",
			"urn:epc:pat:iso17363:7B.CSQ",
			"urn:epc:pat:iso17365:25S.UN.ABC"),
			tags: []*refTag{
				epcTag("giai-96", 3, 1, 12345678901, 5, 0),
				epcTag("giai-96", 3, 1, 12345678901, 55, 0),
				epcTag("grai-96", 0, 6, 123456, 1, 1),
				epcTag("grai-96", 0, 6, 123456, 1, 12),
				epcTag("sscc-96", 0, 3, 123456789, 7, 0),
				isoTag("17363", "7BCSQU3054383"),
				isoTag("17363", "7BCS"),
				isoTag("17365", "25SUNABCD1"),
				isoTag("17365", "7BCSQU3054383"),
			}},
		{name: "iso", pats: P(
			"urn:epc:pat:iso17363:7B.CSQ.U.305438",
			"urn:epc:pat:iso17365:25S.UN.ABC.D1",
			"urn:epc:pat:iso17365:7B",
			"urn:epc:pat:sgtin-96:3.0614141",
			"urn:epc:pat:iso17363:7B"),
			tags: twins(
				isoTag("17363", "7BCSQU3054383"),
				isoTag("17365", "25SUNABCD1"),
				isoTag("17365", "25SUNABD1"),
				epcTag("sgtin-96", 3, 5, 614141, 812345, 6789),
			)},
		{name: "short and long fields", pats: P(
			"urn:epc:pat:sscc-96:0.123456789.7",
			"urn:epc:pat:sgtin-96:3.123456789012.1.27487790694",
			"urn:epc:pat:giai-96:0.123456.461168601842738790",
			"urn:epc:pat:grai-96:0.123456789012..27487790694",
			"urn:epc:pat:sscc-96:0.123456.0"),
			tags: []*refTag{
				epcTag("sscc-96", 0, 3, 123456789, 7, 0),
				epcTag("sscc-96", 0, 3, 123456789, 71234567, 0),
				epcTag("sgtin-96", 3, 0, 123456789012, 1, 27487790694),
				epcTag("sgtin-96", 3, 0, 123456789012, 1, 274877906943),
				epcTag("giai-96", 0, 6, 123456, 461168601842738790, 0),
				epcTag("giai-96", 0, 6, 123456, 4611686018427387903, 0),
				epcTag("sscc-96", 0, 6, 123456, 0, 0),
				epcTag("sscc-96", 0, 6, 123456, 1, 0),
			}},
		{name: "malformed", pats: P(
			"urn:epc:pat:sgtin-96:3.0614141",
			"urn:epc:pat:sgtin-96:3.0614141:812345",
			"urn:epc:pat:sgtin-64:3.0614141",
			"urn:epc:pat:usdod-96:3.0614141",
			"nonsense"),
			tags: []*refTag{
				epcTag("sgtin-96", 3, 5, 614141, 812345, 6789),
				epcTag("sgtin-96", 3, 5, 614140, 812345, 6789),
				bad,
			}},
	}
	for o := 0; o < 2; o++ {
		setOrder(o)
		for _, u := range us {
			u := u
			if !c.Thorough {
				u.pats = u.pats[:4]
			}
			u.name = fmt.Sprintf("%s order %d", u.name, o)
			x := &explorer{c: c, kind: "LegacyEngine", u: &u, shared: true, limit: 3_000_000}
			x.check = func(a answer, m model, t *refTag) string { return checkLegacy(a, m, &u, t) }
			x.ops = append(standardOps(&u, true, true), searchOps(&u)...)
			x.run(builds(&u))
			for _, n := range x.states {
				if n.depth == 2 {
					c.Sample(map[string]any{"history": x.describe(n.history(x))})
					break
				}
			}
			if c.Stopped() {
				return
			}
		}
	}
	setOrder(0)
	c.c06Lattice()
}

// c06Lattice enumerates, for every scheme and partition and every number of given
// fields, pattern fields that equal the tag's, or are proper character prefixes,
// extensions or changes of one of them.
func (c *Ctx) c06Lattice() {
	n := 0
	for _, s := range schemes {
		for part := 0; part < 7; part++ {
			cp := pow10(12-part) / 9
			ref := uint64(0)
			if s.refDig[part] > 0 {
				ref = pow10(min(s.refDig[part], 12)) / 8
			}
			ser := uint64(0)
			if s.serial {
				ser = 123456
			}
			for k, f := range []int{0, 3, 7, 1, 2} {
				switch { // the longest and the shortest fields too
				case k == 3 && s.serial:
					ser = 1<<38 - 2
				case k == 3 && !s.serial && s.refDig[part] > 0:
					ref = min(pow10(min(s.refDig[part], 18))-3, 1<<uint(s.refBits[part])-3)
				case k == 4:
					cp, ref, ser = 0, 0, 0
				}
				t := epcTag(s.name, f, part, cp, ref, ser)
				id := strings.TrimPrefix(t.identity, "urn:epc:id:"+s.urn+":")
				fields := strings.Split(id, ".")
				for given := 0; given <= len(fields); given++ {
					base := fields[:given]
					var variants [][]string
					variants = append(variants, base)
					for i := range base {
						for _, v := range []string{
							base[i][:min(1, len(base[i]))], base[i] + base[i], base[i][len(base[i])/2:],
							base[i][:max(0, len(base[i])-1)], base[i] + "0", base[i] + "1", "0" + base[i],
							strings.Replace(base[i], "1", "2", 1), "",
						} {
							w := append([]string{}, base...)
							w[i] = v
							variants = append(variants, w)
						}
					}
					for _, v := range variants {
						text := fmt.Sprintf("urn:epc:pat:%s:%s", s.name, strings.Join(append([]string{fmt.Sprint(f)}, v...), "."))
						u := universe{pats: []pat{{text: text}}}
						m := model{holding{0, "http://a"}: true}
						e := newEngine("LegacyEngine", toSubs(m.table(&u)))
						a := search(e, t)
						n++
						c.Eval(true, text+t.identity)
						if msg := checkLegacy(a, m, &u, t); msg != "" {
							c.Violate("lattice:"+text+":"+t.identity, map[string]any{"pattern": text, "tag": t.identity}, "pattern %s, tag %s: %s", text, t.identity, msg)
							if c.Stopped() {
								return
							}
						}
					}
				}
			}
		}
	}
	// ISO identities carry no field separators: every cut of the identity into up
	// to four fields, at every prefix length, and every one-character change
	for _, t := range twins(isoTag("17363", "7BCSQU3054383"), isoTag("17365", "25SUNABC0T1"), isoTag("17365", "25SUNABC0THANK0YOU")) {
		id := strings.SplitN(strings.TrimPrefix(t.identity, "urn:epc:id:"), ":", 2)
		if len(id) != 2 {
			continue
		}
		for _, std := range []string{"iso17363", "iso17365"} {
			for l := 1; l <= len(id[1])+1; l++ {
				body := (id[1] + "9")[:l]
				bodies := []string{body}
				for i := 0; i < l; i++ {
					bodies = append(bodies, body[:i]+"Z"+body[i+1:])
				}
				for bi, body := range bodies {
					cuts := [][]int{{}}
					if bi == 0 {
						for a := 1; a < l; a++ {
							cuts = append(cuts, []int{a})
							for b := a + 1; b < l; b++ {
								cuts = append(cuts, []int{a, b})
								for d := b + 1; d < l; d++ {
									cuts = append(cuts, []int{a, b, d})
								}
							}
						}
					} else if l > 3 {
						cuts = append(cuts, []int{2, 3})
					}
					for _, cut := range cuts {
						var fields []string
						last := 0
						for _, x := range append(cut, l) {
							fields = append(fields, body[last:x])
							last = x
						}
						text := "urn:epc:pat:" + std + ":" + strings.Join(fields, ".")
						u := universe{pats: []pat{{text: text}}}
						m := model{holding{0, "http://a"}: true}
						a := search(newEngine("LegacyEngine", toSubs(m.table(&u))), t)
						n++
						c.Eval(true, text+t.identity)
						if msg := checkLegacy(a, m, &u, t); msg != "" {
							c.Violate("lattice:"+text+":"+t.identity, map[string]any{"pattern": text, "tag": t.identity}, "pattern %s, tag %s: %s", text, t.identity, msg)
							if c.Stopped() {
								return
							}
						}
					}
				}
			}
		}
	}
	c.Space("field boundary lattice", n)
}
