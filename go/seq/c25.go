package main

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/iomz/gosstrak/filtering"
)

func init() {
	checks["C25"] = check{
		level: "model_checking",
		rule: "every engine state reachable by builds, additions, deletions and searches over the stated universes is dumped; the dump is read back (bit patterns are concatenated along the path a tree engine prints) and has to list exactly the patterns held, each with exactly the destinations that hold it, once; dumping twice gives the same text and leaves the engine as it was; the dump of the engine saved and restored is the same. The table the engine is built from is dumped, too. Large tables are dumped along histories of additions, deletions and searches. " +
			"Non-trivial: dumps that list at least one subscription.",
		run: runC25,
	}
}

var (
	reList   = regexp.MustCompile(`^--([01]*)\((\d+) (\d+)\) (\S+)$`)
	reTrie   = regexp.MustCompile(`^( *)--([01x]*)\((\d+) (\d+)\) (?:-> (\S+))?$`)
	reSplay  = regexp.MustCompile(`^( *)(ok|ng|)--([01x]*)\((\d+) (\d+)\) (?:-> (\S+))?$`)
	reLegacy = regexp.MustCompile(`^--(\S+) \[((?:"[^"]*" ?)*)\]$`)
	reQuoted = regexp.MustCompile(`"([^"]*)"`)
	reTable  = regexp.MustCompile(`^( *)--([01]*) (\d+) (\S+)$`)
)

// readDump reads what a dump says: pattern and destination of every entry.
func readDump(kind, text string) (out []string, err error) {
	type level struct{ base, bits string }
	stack := map[int]level{}
	lines := strings.Split(text, "\n")
	if lines[len(lines)-1] != "" {
		return nil, fmt.Errorf("the last line is not finished")
	}
	// place is where a line of a tree stands
	place := func(indent string, sibling bool, bits, offset, size string) (string, error) {
		n := len(indent)
		base := ""
		if n > 0 {
			up, ok := stack[n-2]
			if !ok {
				return "", fmt.Errorf("indentation")
			}
			base = up.base
			if !sibling {
				base += up.bits
			}
		}
		if strconv.Itoa(len(base)) != offset || size != "" && strconv.Itoa(len(bits)) != size {
			return "", fmt.Errorf("a pattern of %d bits, following %d bits, is said to be (%s %s)", len(bits), len(base), offset, size)
		}
		for k := range stack {
			if k > n {
				delete(stack, k)
			}
		}
		stack[n] = level{base, bits}
		return base + bits, nil
	}
	for i, l := range lines[:len(lines)-1] {
		bad := func(err error) error { return fmt.Errorf("line %d, %q: %v", i+1, l, err) }
		unreadable := bad(fmt.Errorf("not readable"))
		switch kind {
		case "List":
			m := reList.FindStringSubmatch(l)
			if m == nil {
				return nil, unreadable
			}
			if m[2] != "0" || m[3] != strconv.Itoa(len(m[1])) {
				return nil, bad(fmt.Errorf("offset or size"))
			}
			out = append(out, m[1]+" "+m[4])
		case "PatriciaTrie":
			m := reTrie.FindStringSubmatch(l)
			if m == nil {
				return nil, unreadable
			}
			p, err := place(m[1], false, m[2], m[3], m[4])
			if err != nil {
				return nil, bad(err)
			}
			if m[5] != "" {
				out = append(out, p+" "+m[5])
			}
		case "SplayTree":
			m := reSplay.FindStringSubmatch(l)
			if m == nil || (m[1] == "") != (m[2] == "") {
				return nil, unreadable
			}
			p, err := place(m[1], m[2] == "ng", m[3], m[4], m[5])
			if err != nil {
				return nil, bad(err)
			}
			if m[6] != "" {
				out = append(out, p+" "+m[6])
			}
		case "LegacyEngine":
			m := reLegacy.FindStringSubmatch(l)
			if m == nil {
				return nil, unreadable
			}
			for _, q := range reQuoted.FindAllStringSubmatch(m[2], -1) {
				out = append(out, q[1]+" "+m[1])
			}
		case "table":
			m := reTable.FindStringSubmatch(l)
			if m == nil {
				return nil, unreadable
			}
			p, err := place(m[1], false, m[2], m[3], "")
			if err != nil {
				return nil, bad(err)
			}
			out = append(out, p+" "+m[4])
		}
	}
	sort.Strings(out)
	return out, nil
}

// wantDump is what a dump has to say for a table.
func wantDump(kind string, tbl map[string][]pat) (out []string) {
	have := map[string]bool{}
	for d, ps := range tbl {
		for _, p := range ps {
			k := p.prefix + " " + d
			if kind == "LegacyEngine" {
				k = p.text + " " + d
			}
			if !have[k] {
				have[k] = true
				out = append(out, k)
			}
		}
	}
	sort.Strings(out)
	return
}

// checkDump judges the dump of an engine for a table.
func checkDump(kind string, e filtering.Engine, tbl map[string][]pat) (msg string) {
	var text, again, restored string
	before := deepHash(e)
	if p := catch(func() { text = e.Dump(); again = e.Dump() }); p != nil {
		return fmt.Sprint(p)
	}
	if again != text {
		return fmt.Sprintf("two dumps of one engine:\n%s%s", text, again)
	}
	if deepHash(e) != before {
		return "dumping the engine changed it"
	}
	got, err := readDump(kind, text)
	if err != nil {
		return fmt.Sprintf("dump:\n%s%v", text, err)
	}
	if want := wantDump(kind, tbl); strings.Join(got, "\n") != strings.Join(want, "\n") {
		return fmt.Sprintf("dump:\n%sit says %q, the engine holds %q", text, got, want)
	}
	if p := catch(func() {
		data, err := e.MarshalBinary()
		r := emptyEngine(kind)
		if err == nil {
			err = r.UnmarshalBinary(data)
		}
		if err != nil {
			msg = err.Error()
			return
		}
		restored = r.Dump()
	}); p != nil {
		return fmt.Sprint(p)
	}
	if msg == "" && restored != text {
		msg = fmt.Sprintf("dump:\n%sdump of the engine saved and restored:\n%s", text, restored)
	}
	return
}

func checkTableDump(tbl map[string][]pat) string {
	var text string
	if p := catch(func() { text = toSubs(tbl).ToByteSubscriptions().Dump() }); p != nil {
		return fmt.Sprint(p)
	}
	got, err := readDump("table", text)
	if err != nil {
		return fmt.Sprintf("dump of the table:\n%s%v", text, err)
	}
	if want := wantDump("table", tbl); strings.Join(got, "\n") != strings.Join(want, "\n") {
		return fmt.Sprintf("dump of the table:\n%sit says %q, the table holds %q", text, got, want)
	}
	return ""
}

func runC25(c *Ctx) {
	size := 4
	if c.Thorough {
		size = 5
	}
	for _, kind := range allKinds {
		for _, u := range smallUniverses(size) {
			u := u
			u.name = fmt.Sprintf("%s/%d", u.name, size)
			x := &explorer{c: c, kind: kind, u: &u, limit: 500000, check: func(answer, model, *refTag) string { return "" }}
			x.shared = kind == "LegacyEngine"
			x.ops = append(standardOps(&u, true, true), searchOps(&u)...)
			x.onNew = func(n *node, e filtering.Engine) {
				tbl := n.model.table(&u)
				msg := checkDump(kind, e, tbl)
				if msg == "" && !x.shared {
					msg = checkTableDump(tbl)
				}
				if msg != "" {
					x.violate(n.history(x), msg)
				}
				c.Count(1, int64(min(1, len(n.model))))
			}
			x.run(builds(&u))
			for _, n := range x.states {
				if n.depth == 2 {
					c.Sample(map[string]any{"engine": kind, "history": x.describe(n.history(x))})
					break
				}
			}
			if c.Stopped() {
				return
			}
		}
	}
	c.runLarge("dump", allKinds, nil)
}

// dumps looks at the dump along a history of additions, searches and deletions.
func (r *largeRun) dumps(name string) {
	n := len(r.s.pats)
	step := max(1, n/6)
	for _, w := range []string{"forward", "backward", "strided", "zigzag"} {
		h := name + ", dumps along " + w
		walk := walks(n)[w]
		held := map[int]bool{}
		in := func(i int) bool { return held[i] }
		e, ok := r.build(map[string][]pat{}, h)
		if !ok {
			return
		}
		look := func(when string) bool {
			tbl := r.s.table(in)
			msg := checkDump(r.kind, e, tbl)
			if msg == "" && r.kind == "List" {
				msg = checkTableDump(tbl)
			}
			r.c.Count(1, int64(min(1, len(held))))
			return msg == "" || r.fail(h+when, msg, nil)
		}
		for k, i := range walk {
			held[i] = true
			if !r.do(h, func() { e.AddSubscription(one(r.s.dest(i), r.s.pats[i])) }) || k%step == step-1 && !look(fmt.Sprintf(" (after %d additions)", k+1)) {
				return
			}
		}
		for k, t := range r.s.tags {
			search(e, t)
			if k%(1+len(r.s.tags)/4) == 0 && !look(fmt.Sprintf(" (after %d searches)", k+1)) {
				return
			}
		}
		for k, i := range walk {
			delete(held, i)
			if !r.do(h, func() { e.DeleteSubscription(one(r.s.dest(i), r.s.pats[i])) }) || k%step == step-1 && !look(fmt.Sprintf(" (after %d deletions)", k+1)) {
				return
			}
		}
	}
	h := name + ", dump of the table as built"
	all := r.s.table(nil)
	e, ok := r.build(all, h)
	if ok {
		if msg := checkDump(r.kind, e, all); msg != "" {
			r.fail(h, msg, nil)
		}
		r.c.Count(1, 1)
	}
}
