package main

import (
	"fmt"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/iomz/gosstrak/filtering"
	"github.com/iomz/gosstrak/tdt"
)

func init() {
	checks["C11"] = check{
		level: "exploration",
		rule: "malformed patterns enumerated by grammar: every scheme (and unknown ones) x every number of fields x every replacement of one or two fields by each of a pool of bad values (empty, blank, signs, letters, other scripts, out of range, overlong, overflowing), surplus fields, and every wrong number of colon-separated parts; each in every place of a table (own destination, before, after and between well-formed patterns of the same destination), given at construction, added and deleted, on all four engines, in two enumeration orders; all tags are searched, including ones made from whatever filter the malformed pattern would yield. " +
			"Non-trivial: distinct malformed patterns.",
		run: runC11,
	}
}

func malformed() []string {
	pool := []string{"", " ", "a", "Z9", "-1", "+3", "3 ", "8", "9", "99", "0x3", "1e3", "3x", "\uff13", "12345", "1234567", "1234567890123", "12345678901234", "274877906944", "99999999999999999999", strings.Repeat("9", 40)}
	base := map[string][]string{
		"sgtin-96": {"3", "0614141", "812345", "6789"},
		"sscc-96":  {"0", "123456789", "01234567"},
		"grai-96":  {"0", "123456", "000001", "1"},
		"giai-96":  {"7", "12345678901", "5"},
		"iso17363": {"7B", "CSQ", "U", "305438"},
		"iso17365": {"25S", "UN", "ABC", "0THANK"},
		"sgtin-64": {"3", "0614141", "812345", "6789"},
		"usdod-96": {"3", "0614141"},
		"sgtin":    {"3", "0614141", "812345", "6789"},
		"":         {"3", "0614141", "812345"},
		"iso17364": {"25S", "UN"},
	}
	set := map[string]bool{}
	add := func(s string) { set[s] = true }
	for sch, fs := range base {
		p := "urn:epc:pat:" + sch + ":"
		for n := 0; n <= len(fs); n++ {
			head := fs[:n]
			add(p + strings.Join(head, "."))
			for i := 0; i < n; i++ {
				for _, v := range pool {
					x := append([]string{}, head...)
					x[i] = v
					add(p + strings.Join(x, "."))
					for j := 0; j < i; j++ {
						for _, w := range pool {
							x[j] = w
							add(p + strings.Join(x, "."))
							x[j] = head[j]
						}
					}
				}
				// a missing character, a doubled dot
				x := append([]string{}, head...)
				if len(x[i]) > 0 {
					x[i] = x[i][1:]
					add(p + strings.Join(x, "."))
				}
				x[i] = head[i] + "."
				add(p + strings.Join(x, "."))
				x[i] = "." + head[i]
				add(p + strings.Join(x, "."))
			}
			// any one character that isn't one, in any place
			if n == len(fs) && (sch == "giai-96" || sch == "iso17363" || sch == "iso17365") {
				for i := 0; i < n; i++ {
					for r := rune(0); r < 0x140; r++ {
						if r != '.' && r != ':' {
							add(p + strings.Join(append(append([]string{}, head[:i]...), head[i][:len(head[i])/2]+string(r)+head[i][len(head[i])/2:]), "."))
						}
					}
				}
			}
			for _, v := range pool {
				add(p + strings.Join(append(append([]string{}, fs...), v), "."))
				add(p + strings.Join(append(append([]string{}, fs...), v, "1"), "."))
			}
			j := strings.Join(head, ".")
			add("urn:epc:pat:" + sch)
			add(p + j + ":")
			add(p + j + ":1")
			add(p + ":" + j)
			add("urn:epc:pat:" + j)
			add("urn:epc:id:" + sch + ":" + j)
			add("urn:epc:pat:" + j + ":" + sch)
		}
	}
	for _, s := range []string{"", ":", "::", "urn", "urn:epc:pat", "urn:epc:pat:", "urn:epc:pat::", "urn:epc:pat:::", "nonsense", "a.b.c", "urn:epc:raw:96.x30"} {
		add(s)
	}
	var out []string
	for s := range set {
		if _, err := refPattern(s); err != nil {
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return out
}

func runC11(c *Ctx) {
	good := []pat{
		mkpat("urn:epc:pat:sgtin-96:3.0614141"),
		mkpat("urn:epc:pat:sgtin-96:3.0614141.812345.6789"),
		mkpat("urn:epc:pat:giai-96:7.12345678901"),
		mkpat("urn:epc:pat:iso17363:7B.CSQ"),
	}
	tags := mixedUniverse().tags
	bad := malformed()
	c.Space("malformed patterns", len(bad))
	var evals atomic.Int64
	kinds := append(append([]string{}, binaryKinds...), "LegacyEngine")
	orders := []int{0, 1}
	for _, o := range orders {
		setOrder(o)
		c.Parallel(len(bad), func(i int) {
			m := bad[i]
			mt := append([]*refTag{}, tags...)
			// tags made from the filter the code would derive, if any
			p := strings.Split(strings.TrimPrefix(m, "urn:epc:pat:"), ":")
			if len(p) == 2 {
				var f string
				c.Try("filter:"+m, m, func() { f, _ = tdt.MakePrefixFilterString(p[0], strings.Split(strings.ToUpper(p[1]), ".")) })
				if f != "" && strings.Trim(f, "01") == "" {
					mt = append(mt, tagsFrom(f)...)
				}
			}
			c.Eval(true, m)
			for _, kind := range kinds {
				if kind == "LegacyEngine" && legacyLenient(m) {
					continue
				}
				evals.Add(c.c11One(kind, m, good, mt))
				if c.Stopped() {
					return
				}
			}
		})
	}
	setOrder(0)
	c.Count(evals.Load(), 0)
	for i := 0; i < len(bad); i += len(bad)/6 + 1 {
		c.Sample(bad[i])
	}
}

// legacyLenient: the pattern is malformed only in what the text engine
// disregards: the filter value, or it has the right shape and names real fields.
func legacyLenient(m string) bool {
	p := strings.Split(m, ":")
	if len(p) != 5 || p[2] != "pat" {
		return false
	}
	f := strings.Split(p[4], ".")
	if strings.HasPrefix(p[3], "iso") {
		// the text engine compares characters
		return p[3] == "iso17363" || p[3] == "iso17365"
	}
	s := schemeByName(p[3])
	if s == nil {
		return false
	}
	f[0] = "0"
	if len(f) == 1 {
		return true
	}
	_, err := refPattern("urn:epc:pat:" + p[3] + ":" + strings.Join(f, "."))
	return err == nil
}

// tagsFrom makes well-formed tags that begin with the filter.
func tagsFrom(f string) []*refTag {
	var out []*refTag
	for _, fill := range []string{"0", "1"} {
		for _, pc := range [][2]byte{{0x30, 0}, {0x31, 0xA9}, {0x31, 0xA2}} {
			n := 96
			if pc[1] != 0 {
				n = (len(f) + 15) / 16 * 16
			} else if len(f) > 96 {
				continue
			}
			b := f + strings.Repeat(fill, max(0, n-len(f)))
			id, ok, _ := refTranslate(pc[:], toBytes(b))
			if ok {
				out = append(out, &refTag{bits: b, pc: pc, identity: id})
			}
		}
	}
	return out
}

func (c *Ctx) c11One(kind, m string, good []pat, tags []*refTag) (n int64) {
	mp := pat{text: m}
	own := func() map[string][]string {
		return map[string][]string{"http://a": {good[0].text, good[3].text}, "http://b": {good[1].text}, "http://c": {good[2].text}}
	}
	tables := map[string]filtering.Subscriptions{}
	t := own()
	t["http://bad"] = []string{m}
	tables["own destination"] = t
	t = own()
	t["http://a"] = []string{m, good[0].text, good[3].text}
	tables["before"] = t
	t = own()
	t["http://a"] = []string{good[0].text, m, good[3].text}
	tables["between"] = t
	t = own()
	t["http://b"] = []string{good[1].text, m}
	tables["after"] = t
	tables["alone"] = filtering.Subscriptions{"http://bad": {m}}
	check := func(e filtering.Engine, empty bool, how string) bool {
		subs := map[string][]pat{"http://a": {good[0], good[3]}, "http://b": {good[1]}, "http://c": {good[2]}}
		if empty {
			subs = nil
		}
		for _, tg := range tags {
			n++
			a := search(e, tg)
			var msg string
			if kind == "LegacyEngine" {
				u := universe{pats: good}
				mm := model{}
				if !empty {
					mm = model{holding{0, "http://a"}: true, holding{3, "http://a"}: true, holding{1, "http://b"}: true, holding{2, "http://c"}: true}
				}
				msg = checkLegacy(a, mm, &u, tg)
			} else {
				msg = checkBinary(a, subs, tg)
			}
			if msg != "" {
				c.Violate(fmt.Sprintf("%s:%s:%s:%s", kind, how, m, tg.identity), map[string]any{"engine": kind, "pattern": m, "where": how, "tag": tg.identity, "pc": tg.pc, "id": tg.bits},
					"%s with malformed %q (%s), tag %s %s: %s", kind, mp.text, how, tg.identity, tg.bits, msg)
				return false
			}
		}
		return true
	}
	for _, how := range []string{"own destination", "before", "between", "after", "alone"} {
		var e filtering.Engine
		if !c.Try(kind+":build:"+m, m, func() { e = newEngine(kind, tables[how]) }) || !check(e, how == "alone", how) {
			return
		}
	}
	for _, bs := range []filtering.Subscriptions{{"http://bad": {m}}, {"http://a": {m}}} {
		var e filtering.Engine
		if !c.Try(kind+":add:"+m, m, func() { e = newEngine(kind, own()); e.AddSubscription(bs.Clone()) }) || !check(e, false, "added") {
			return
		}
		if !c.Try(kind+":del:"+m, m, func() { e.DeleteSubscription(bs.Clone()) }) || !check(e, false, "added and deleted") {
			return
		}
		if !c.Try(kind+":del0:"+m, m, func() { e = newEngine(kind, own()); e.DeleteSubscription(bs.Clone()) }) || !check(e, false, "deleted") {
			return
		}
		// in one call with a well-formed one
		if !c.Try(kind+":mixadd:"+m, m, func() {
			t := own()
			t["http://a"] = []string{good[0].text}
			e = newEngine(kind, t)
			e.AddSubscription(filtering.Subscriptions{"http://a": {m, good[3].text}})
		}) || !check(e, false, "added along") {
			return
		}
	}
	return
}
