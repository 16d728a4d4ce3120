package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/iomz/go-llrp"
	"github.com/iomz/gosstrak/filtering"
	"verif.local/v/sched"
)

var binaryKinds = []string{"List", "PatriciaTrie", "SplayTree"}

func newEngine(kind string, sub filtering.Subscriptions) filtering.Engine {
	switch kind {
	case "List":
		return filtering.NewList(sub)
	case "PatriciaTrie":
		return filtering.NewPatriciaTrie(sub)
	case "SplayTree":
		return filtering.NewSplayTree(sub)
	case "LegacyEngine":
		return filtering.NewLegacyEngine(sub)
	}
	panic("kind " + kind)
}

func emptyEngine(kind string) filtering.Engine {
	switch kind {
	case "List":
		return &filtering.List{}
	case "PatriciaTrie":
		return &filtering.PatriciaTrie{}
	case "SplayTree":
		return &filtering.SplayTree{}
	case "LegacyEngine":
		return &filtering.LegacyEngine{}
	}
	panic("kind " + kind)
}

// answer of a search, normalised.
type answer struct {
	identity string
	uris     []string // sorted, with repetitions
	err      bool
	panicked string
}

func (a answer) set() []string {
	var out []string
	for i, u := range a.uris {
		if i == 0 || a.uris[i-1] != u {
			out = append(out, u)
		}
	}
	return out
}

func (a answer) String() string {
	if a.panicked != "" {
		return a.panicked
	}
	return fmt.Sprintf("%q %v err=%v", a.identity, a.uris, a.err)
}

func search(e filtering.Engine, t *refTag) answer {
	return searchID(e, t.pc[:], t.id())
}

func searchID(e filtering.Engine, pc, id []byte) answer {
	var a answer
	if p := catch(func() {
		pi, uris, err := e.Search(llrp.ReadEvent{PC: pc, ID: id})
		a.identity = pi
		a.uris = append([]string{}, uris...)
		sort.Strings(a.uris)
		a.err = err != nil
	}); p != nil {
		a.panicked = p.(string)
	}
	return a
}

// pat is a pattern of the reference model.
type pat struct {
	text   string
	prefix string
}

func mkpat(text string) pat {
	p, err := refPattern(text)
	if err != nil {
		panic(text + ": " + err.Error())
	}
	return pat{text, p}
}

// wantBinary is the reference answer of a binary engine: subs maps destination
// to patterns.
func wantBinary(subs map[string][]pat, t *refTag) (dests []string, matches map[string]int) {
	matches = map[string]int{}
	for d, ps := range subs {
		seen := map[string]bool{}
		for _, p := range ps {
			if strings.HasPrefix(t.bits, p.prefix) && !seen[p.prefix] {
				seen[p.prefix] = true
				matches[d]++
			}
		}
	}
	for d := range matches {
		dests = append(dests, d)
	}
	sort.Strings(dests)
	return
}

// checkBinary compares an answer with the reference; a destination may be
// repeated at most once per pattern of its that matches.
func checkBinary(a answer, subs map[string][]pat, t *refTag) string {
	want, matches := wantBinary(subs, t)
	return checkAnswer(a, want, matches, t)
}

func checkAnswer(a answer, want []string, matches map[string]int, t *refTag) string {
	if a.panicked != "" {
		return a.panicked
	}
	got := a.set()
	if strings.Join(got, " ") != strings.Join(want, " ") {
		return fmt.Sprintf("reported %v, want %v", got, want)
	}
	if len(want) == 0 {
		if !a.err {
			return "no error although nobody subscribes"
		}
		return ""
	}
	if a.err {
		return fmt.Sprintf("error although %v subscribe", want)
	}
	if a.identity != t.identity {
		return fmt.Sprintf("identity %q, want %q", a.identity, t.identity)
	}
	count := map[string]int{}
	for _, u := range a.uris {
		count[u]++
		if count[u] > matches[u] {
			return fmt.Sprintf("%s reported %d times for %d matching patterns", u, count[u], matches[u])
		}
	}
	return ""
}

func toSubs(m map[string][]pat) filtering.Subscriptions {
	s := filtering.Subscriptions{}
	for d, ps := range m {
		s[d] = []string{}
		for _, p := range ps {
			s[d] = append(s[d], p.text)
		}
	}
	return s
}

func texts(m map[string][]pat) map[string][]string {
	return map[string][]string(toSubs(m))
}

// withOrder runs f with map iteration in the given order: 0 sorted, 1 reversed,
// >=2 the permutation with that index.
func setOrder(o int) {
	switch {
	case o == 0:
		sched.MapOrder = nil
	case o == 1:
		sched.MapOrder = func(n int) []int {
			p := make([]int, n)
			for i := range p {
				p[i] = n - 1 - i
			}
			return p
		}
	default:
		sched.MapOrder = func(n int) []int {
			f := 1
			for i := 2; i <= n && f < 1<<20; i++ {
				f *= i
			}
			return sched.Permutation(n, (o-2)%f)
		}
	}
}

// A universe is a set of patterns and tags that tell them apart.
type universe struct {
	name string
	pats []pat
	tags []*refTag
}

func iso65(chars string) string { return "urn:epc:pat:iso17365:" + chars }

// strings over an alphabet up to a length
func words(alphabet string, min, max int) []string {
	var out []string
	cur := []string{""}
	for l := 1; l <= max; l++ {
		var next []string
		for _, w := range cur {
			for _, a := range alphabet {
				next = append(next, w+string(a))
			}
		}
		cur = next
		if l >= min {
			out = append(out, cur...)
		}
	}
	return out
}

// mixedUniverse nests patterns of every scheme, with prefixes that are prefixes
// of each other, siblings that differ in the first, a middle and the last bit,
// and tags shorter than some patterns.
func mixedUniverse() universe {
	u := universe{name: "mixed"}
	for _, t := range []string{
		"urn:epc:pat:sgtin-96:3",
		"urn:epc:pat:sgtin-96:3.0614141",
		"urn:epc:pat:sgtin-96:3.0614141.812345",
		"urn:epc:pat:sgtin-96:3.0614141.812345.6789",
		"urn:epc:pat:sgtin-96:3.0614141.812345.6788",
		"urn:epc:pat:sgtin-96:3.061414.0812345",
		"urn:epc:pat:sscc-96:0.123456789",
		"urn:epc:pat:sscc-96:0.123456789.01234567",
		"urn:epc:pat:grai-96:0.123456",
		"urn:epc:pat:giai-96:7.12345678901.5",
		"urn:epc:pat:iso17363:7B",
		"urn:epc:pat:iso17363:7B.CSQ.U.305438",
		"urn:epc:pat:iso17365:25S",
		"urn:epc:pat:iso17365:25S.UN.ABC",
		"urn:epc:pat:iso17365:25S.UN.ABC.0THANK0YOU0FOR0READING0THIS1",
		"urn:epc:pat:sgtin-96:1",
	} {
		u.pats = append(u.pats, mkpat(t))
	}
	u.tags = []*refTag{
		epcTag("sgtin-96", 3, 5, 614141, 812345, 6789),
		epcTag("sgtin-96", 3, 5, 614141, 812345, 6788),
		epcTag("sgtin-96", 3, 5, 614141, 812345, 6790),
		epcTag("sgtin-96", 3, 5, 614141, 812344, 6789),
		epcTag("sgtin-96", 3, 5, 614140, 812345, 6789),
		epcTag("sgtin-96", 3, 6, 61414, 812345, 0),
		epcTag("sgtin-96", 1, 5, 614141, 812345, 6789),
		epcTag("sgtin-96", 2, 5, 614141, 812345, 6789),
		epcTag("sscc-96", 0, 3, 123456789, 1234567, 0),
		epcTag("sscc-96", 0, 3, 123456789, 7, 0),
		epcTag("sscc-96", 0, 2, 123456789, 7, 0),
		epcTag("grai-96", 0, 6, 123456, 1, 1),
		epcTag("giai-96", 7, 1, 12345678901, 5, 0),
		epcTag("giai-96", 7, 1, 12345678901, 4, 0),
		isoTag("17363", "7BCSQU3054383"),
		isoTag("17363", "7BCSQU3054384"),
		isoTag("17363", "7BABCU0000000"),
		isoTag("17363", "7"),
		isoTag("17365", "25SUNABC0THANK0YOU0FOR0READING0THIS1"),
		isoTag("17365", "25SUNABC0THANK0YOU0FOR0READING0THIS2"),
		isoTag("17365", "25SUNABC"),
		isoTag("17365", "25SUNABD1234"),
		isoTag("17365", "25"),
	}
	return u
}

// wordUniverse holds every word up to the length over two characters: all
// possible nestings and branchings of a binary trie at six-bit granularity.
func wordUniverse(alphabet string, max int) universe {
	u := universe{name: "words(" + alphabet + ")"}
	for _, w := range words(alphabet, 1, max) {
		u.pats = append(u.pats, mkpat(iso65(w)))
	}
	for _, w := range words(alphabet, 1, max) {
		u.tags = append(u.tags, isoTag("17365", w))
	}
	u.tags = append(u.tags, isoTag("17365", words(alphabet, max, max)[1]+"9"), isoTag("17365", "9"+alphabet[:1]), isoTag("17365", strings.Repeat(alphabet[1:2], max+1)))
	return u
}

func (u universe) String() string {
	return fmt.Sprintf("%s: %d patterns, %d tags", u.name, len(u.pats), len(u.tags))
}
