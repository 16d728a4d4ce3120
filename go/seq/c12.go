package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/iomz/gosstrak/filtering"
)

func init() {
	checks["C12"] = check{
		level: "exploration",
		rule: "files: every sequence of up to 4 lines (thorough 5) over an alphabet of lines that covers destinations in both letter cases, http and https, other first columns, patterns in both letter cases, quoted cells, empty cells and lines, comments, surplus columns; tables: every table of up to 3 destinations over every pattern list of length 0..3 over 3 patterns (well-formed, nested, malformed, repeated), in every enumeration order of the map: clone, serialise and restore, convert, serialise the conversion, and mutate each side afterwards. " +
			"Large files and tables (long lines, many lines) are loaded and converted as well. Non-trivial: distinct files that contain a subscription, distinct non-empty tables.",
		run: runC12,
	}
}

type csvLine struct {
	text  string
	cells []string
}

func runC12(c *Ctx) {
	const P = "urn:epc:pat:"
	q := func(s string) string { return `"` + strings.ReplaceAll(s, `"`, `""`) + `"` }
	alphabet := []csvLine{
		{"", nil},
		{"http://a/x," + P + "sgtin-96:3", []string{"http://a/x", P + "sgtin-96:3"}},
		{"HTTP://A/x,URN:EPC:PAT:sgtin-96:3.0614141", []string{"http://a/x", P + "sgtin-96:3.0614141"}},
		{"https://b," + P + "iso17363:7B.csq," + P + "sgtin-96:3", []string{"https://b", P + "iso17363:7B.csq", P + "sgtin-96:3"}},
		{"http://a/x,,nonsense,urn:epc:id:sgtin:1.2.3," + P + "giai-96:0.1", []string{"http://a/x", "", "nonsense", "urn:epc:id:sgtin:1.2.3", P + "giai-96:0.1"}},
		{"ftp://c," + P + "sgtin-96:1", []string{"ftp://c", P + "sgtin-96:1"}},
		{"destination,pattern", []string{"destination", "pattern"}},
		{"http://d", []string{"http://d"}},
		{"," + P + "sgtin-96:2", []string{"", P + "sgtin-96:2"}},
		{q("http://e,f") + "," + q(P+"iso17365:25S,"), []string{"http://e,f", P + "iso17365:25S,"}},
		{"Https://B,Urn:Epc:Pat:grai-96:0.AB", []string{"https://b", P + "grai-96:0.AB"}},
	}
	maxLines := 4
	if c.Thorough {
		maxLines = 5
	}
	var evals atomic.Int64
	total := 0
	for n, k := 0, 1; n <= maxLines; n, k = n+1, k*len(alphabet) {
		total += k
		count := k
		lines := n
		c.Parallel(count, func(i int) {
			var sel []csvLine
			for x, j := i, 0; j < lines; j++ {
				sel = append(sel, alphabet[x%len(alphabet)])
				x /= len(alphabet)
			}
			want := map[string][]string{}
			var texts []string
			for _, l := range sel {
				texts = append(texts, l.text)
				if len(l.cells) == 0 || !strings.HasPrefix(strings.ToLower(l.cells[0]), "http") {
					continue
				}
				for _, p := range l.cells[1:] {
					if strings.HasPrefix(p, P) {
						want[l.cells[0]] = append(want[l.cells[0]], p)
					}
				}
			}
			for _, ending := range []string{"\n", "", "\r\n"} {
				sep := "\n"
				if ending == "\r\n" {
					sep = ending
				}
				content := strings.Join(texts, sep) + ending
				f := filepath.Join(c.Scratch, fmt.Sprintf("subs-%d-%d-%d", lines, i, len(ending)))
				if err := os.WriteFile(f, []byte(content), 0o644); err != nil {
					panic(err)
				}
				var got filtering.Subscriptions
				ok := c.Try("csv:"+content, content, func() { got = filtering.LoadSubscriptionsFromCSVFile(f) })
				os.Remove(f)
				if !ok {
					return
				}
				evals.Add(1)
				c.Eval(len(want) > 0, content)
				norm := map[string][]string{}
				for d, ps := range got {
					if len(ps) > 0 {
						norm[d] = ps
					}
				}
				if !reflect.DeepEqual(norm, want) {
					c.Violate("csv:"+content, content, "file %q loads as %v, want %v", content, got, want)
					return
				}
			}
		})
	}
	c.Space("files", total*3)

	// large files: many lines, long lines, many destinations
	for _, dim := range [][3]int{{4000, 60, 1}, {3, 3, 3000}, {300, 300, 40}, {1, 1, 70000}, {20000, 1, 1}, {1500, 1500, 2}} {
		lines, dests, cells := dim[0], dim[1], dim[2]
		want := map[string][]string{}
		var b strings.Builder
		for i := 0; i < lines; i++ {
			if i%97 == 96 { // lines that subscribe nothing, in between
				b.WriteString([]string{"# comment\n", "\n", "ftp://x," + P + "sgtin-96:3\n", "http://nothing\n"}[i/97%4])
			}
			d := fmt.Sprintf("http://dest%d/a", i%dests)
			b.WriteString(d)
			for j := 0; j < cells; j++ {
				p := fmt.Sprintf("%ssgtin-96:%d.%07d.%06d", P, j%8, i, j)
				b.WriteString("," + p)
				want[d] = append(want[d], p)
			}
			b.WriteString("\n")
		}
		f := filepath.Join(c.Scratch, fmt.Sprintf("large-%d-%d", lines, cells))
		if err := os.WriteFile(f, []byte(b.String()), 0o644); err != nil {
			panic(err)
		}
		name := fmt.Sprintf("%d lines, %d destinations, %d patterns a line", lines, dests, cells)
		var got filtering.Subscriptions
		ok := c.Try("csv:"+name, name, func() { got = filtering.LoadSubscriptionsFromCSVFile(f) })
		os.Remove(f)
		if !ok {
			break
		}
		evals.Add(1)
		c.Eval(true, name)
		if !reflect.DeepEqual(map[string][]string(got), want) {
			n, m := 0, 0
			for _, ps := range got {
				n += len(ps)
			}
			for _, ps := range want {
				m += len(ps)
			}
			c.Violate("csv:"+name, name, "a file of %s loads as %d destinations with %d patterns, want %d with %d", name, len(got), n, len(want), m)
		}
	}
	for _, dim := range [][2]int{{200, 3}, {2, 700}, {40, 40}} {
		for o := 0; o < 2; o++ {
			setOrder(o)
			t := filtering.Subscriptions{}
			for i := 0; i < dim[0]; i++ {
				for j := 0; j < dim[1]; j++ {
					d := fmt.Sprintf("http://d%d", i)
					t[d] = append(t[d], fmt.Sprintf("%ssgtin-96:3.%07d.%06d", P, i, j))
				}
			}
			evals.Add(1)
			c.c12Table(t)
		}
	}
	setOrder(0)

	// tables
	pool := []string{P + "sgtin-96:3", P + "sgtin-96:3.0614141", P + "bad:1"}
	var lists [][]string
	lists = append(lists, nil, []string{})
	for l := 1; l <= 3; l++ {
		n := 1
		for i := 0; i < l; i++ {
			n *= len(pool)
		}
		for i := 0; i < n; i++ {
			var ps []string
			for x, j := i, 0; j < l; j++ {
				ps = append(ps, pool[x%len(pool)])
				x /= len(pool)
			}
			lists = append(lists, ps)
		}
	}
	dests := []string{"http://a", "http://b", "http://c"}
	nl := len(lists) + 1 // absent
	count := nl * nl
	third := 4
	if c.Thorough {
		third = nl
	}
	orders := 6
	for o := 0; o < orders; o++ {
		if o < 2 {
			setOrder(o)
		} else {
			setOrder(o)
		}
		c.Parallel(count*third, func(i int) {
			t := filtering.Subscriptions{}
			for k, x := range []int{i % nl, i / nl % nl, i / count * (nl / third)} {
				if x > 0 {
					var ps []string
					if lists[x-1] != nil {
						ps = make([]string, len(lists[x-1]), len(lists[x-1])+2)
						copy(ps, lists[x-1])
					}
					t[dests[k]] = ps
				}
			}
			evals.Add(1)
			c.c12Table(t)
		})
	}
	setOrder(0)
	c.Space("tables", count*third)
	c.Count(evals.Load(), 0)
	c.Sample(strings.Join([]string{alphabet[1].text, alphabet[2].text, alphabet[4].text}, "\n"))
}

func showTable(t map[string][]string) string {
	var ks []string
	for k := range t {
		ks = append(ks, fmt.Sprintf("%s=%q", k, t[k]))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func copyTable(t filtering.Subscriptions) map[string][]string {
	out := map[string][]string{}
	for k, v := range t {
		out[k] = append([]string{}, v...)
	}
	return out
}

// sameTable: equal up to nil versus empty lists.
func sameTable(a filtering.Subscriptions, b map[string][]string) bool {
	return a != nil && reflect.DeepEqual(copyTable(a), copyTable(b))
}

func scribble(t filtering.Subscriptions) {
	for k := range t {
		for i := range t[k] {
			t[k][i] = "scribbled"
		}
		t[k] = append(t[k], "more")
		if cap(t[k]) > len(t[k]) {
			x := t[k][:cap(t[k])]
			for i := range x {
				x[i] = "scribbled"
			}
		}
	}
	t["http://new"] = []string{"x"}
	delete(t, "http://a")
}

func (c *Ctx) c12Table(t filtering.Subscriptions) {
	orig := copyTable(t)
	show := showTable(orig)
	c.Eval(len(t) > 0, show)
	bad := func(key, format string, args ...any) {
		c.Violate(key+":"+show, show, "table "+show+": "+format, args...)
	}
	var cl, rt filtering.Subscriptions
	var bs, brt filtering.ByteSubscriptions
	var err1, err2, err3, err4 error
	if !c.Try("table:"+show, show, func() {
		cl = t.Clone()
		var b []byte
		b, err1 = t.MarshalBinary()
		rt = filtering.Subscriptions{}
		if err1 == nil {
			err2 = (&rt).UnmarshalBinary(b)
		}
		bs = t.ToByteSubscriptions()
		var buf bytes.Buffer
		err3 = gob.NewEncoder(&buf).Encode(bs)
		if err3 == nil {
			err4 = gob.NewDecoder(&buf).Decode(&brt)
		}
	}) {
		return
	}
	if err1 != nil || err2 != nil || err3 != nil || err4 != nil {
		bad("err", "errors %v %v %v %v", err1, err2, err3, err4)
		return
	}
	if !sameTable(t, orig) {
		bad("changed", "changed to %s by cloning, serialising or converting it", showTable(t))
		return
	}
	if !sameTable(cl, orig) {
		bad("clone", "cloned as %s", showTable(cl))
		return
	}
	if !sameTable(rt, orig) {
		bad("rt", "restored as %s", showTable(rt))
		return
	}
	// conversion: one entry per distinct prefix, with a destination that asked for it
	want := map[string]map[string]bool{}
	for d, ps := range orig {
		for _, p := range ps {
			if pre, err := refPattern(p); err == nil {
				if want[pre] == nil {
					want[pre] = map[string]bool{}
				}
				want[pre][d] = true
			}
		}
	}
	for _, x := range []filtering.ByteSubscriptions{bs, brt} {
		if len(x) != len(want) {
			bad("conv", "converted to %d prefixes, want %d", len(x), len(want))
			return
		}
		for pre, ds := range want {
			e := x[pre]
			if e == nil || !ds[e.ReportURI] || e.Offset != 0 || len(e.Subset) != 0 {
				bad("conv", "prefix %s converted to %+v, want a destination of %v", pre, e, ds)
				return
			}
		}
	}
	for pre := range bs {
		if bs[pre].ReportURI != brt[pre].ReportURI {
			bad("convrt", "prefix %s: destination %s restored as %s", pre, bs[pre].ReportURI, brt[pre].ReportURI)
		}
	}
	// storage
	conv := map[string]string{}
	for pre, e := range bs {
		conv[pre] = e.ReportURI
	}
	scribble(cl)
	scribble(rt)
	if !sameTable(t, orig) {
		bad("share", "changed to %s by changing its clone and its restored copy", showTable(t))
		return
	}
	cl2 := t.Clone()
	scribble(t)
	if !sameTable(cl2, orig) {
		bad("share2", "the clone changed to %s with the original", showTable(cl2))
		return
	}
	for pre, e := range bs {
		if e.ReportURI != conv[pre] || len(bs) != len(conv) {
			bad("share3", "the conversion changed with the table")
			return
		}
	}
}
