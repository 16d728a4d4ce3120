package main

import (
	"fmt"
	"reflect"
	"slices"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/iomz/gosstrak/filtering"
)

func init() {
	checks["C20"] = check{
		level: "exploration",
		rule: "every pair and triple of distinct filters from a family over a common byte range: all patterns of up to 3 symbols from {0,1,x} placed at offsets around a byte boundary, plus byte-wide patterns that agree or differ in one bit, with members of different byte ranges that overlap; and every subset of families of ten filters and more, in three orders; for each group every ID that differs on any of the bits the members look at (all 2^k assignments up to k = 14; beyond, every assignment within two bits of a member's pattern, of all zeros and of all ones), with the other bits all zero and all one. The composite and each member's residual filter are evaluated with the matcher of the code under test. " +
			"Non-trivial: distinct groups with at least one accepted ID and one rejected ID.",
		run: runC20,
	}
}

// compParts reads the composite filter and the residual filters, whatever the
// fields are called: one string, one int, one map of filters.
func compParts(comp *filtering.Composition) (string, int, map[string]*filtering.FilterObject, bool) {
	v := reflect.ValueOf(comp).Elem()
	var s string
	var off int
	ch := map[string]*filtering.FilterObject{}
	ns, ni, nm := 0, 0, 0
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch f.Kind() {
		case reflect.String:
			s = f.String()
			ns++
		case reflect.Int:
			off = int(f.Int())
			ni++
		case reflect.Map:
			nm++
			it := f.MapRange()
			for it.Next() {
				p := it.Value()
				if p.Kind() != reflect.Ptr {
					return "", 0, nil, false
				}
				e := p.Elem()
				o := e.FieldByName("Offset")
				st := e.FieldByName("String")
				if !o.IsValid() || !st.IsValid() {
					return "", 0, nil, false
				}
				ch[it.Key().String()] = filtering.NewFilter(st.String(), int(o.Int()))
			}
		}
	}
	return s, off, ch, ns == 1 && ni == 1 && nm == 1
}

type c20f struct {
	bits string
	off  int
}

func (f c20f) match(id string) bool {
	for i, r := range f.bits {
		if r != 'x' && id[f.off+i] != byte(r) {
			return false
		}
	}
	return true
}

func c20Families(thorough bool) map[string][]c20f {
	out := map[string][]c20f{}
	var pats func(n int, alpha string) []string
	pats = func(n int, alpha string) []string {
		if n == 0 {
			return []string{""}
		}
		var o []string
		for _, p := range pats(n-1, alpha) {
			for _, a := range alpha {
				o = append(o, p+string(a))
			}
		}
		return o
	}
	// inside one byte
	for _, off := range []int{0, 3, 8, 13} {
		var fam []c20f
		for l := 1; l <= 3; l++ {
			for _, p := range pats(l, "01x") {
				fam = append(fam, c20f{p, off})
			}
		}
		out[fmt.Sprintf("one byte at %d", off)] = fam
	}
	// across a byte boundary
	var fam []c20f
	for _, p := range pats(4, "01") {
		fam = append(fam, c20f{p, 6})
	}
	for _, p := range pats(3, "01x") {
		fam = append(fam, c20f{p, 7})
	}
	out["boundary"] = fam
	// whole bytes that differ in few bits, one or two bytes long
	fam = nil
	for _, p := range []string{"00000000", "11111111", "10000000", "00000001", "11110000", "0000000000000000", "0000000011111111", "1111111100000000", "1000000000000001", "0000000010000000", "00000000xxxx0000", "x0000000", "0000000x"} {
		fam = append(fam, c20f{p, 8})
	}
	out["bytes"] = fam
	// different ranges with a common byte
	fam = nil
	for _, off := range []int{0, 4, 8, 12} {
		for _, p := range []string{"000011110000", "000000000000", "111111111111", "0101xx100101"} {
			fam = append(fam, c20f{p[:12-off/4] + strings.Repeat("1", off/4), off})
		}
	}
	out["overlapping ranges"] = fam
	if thorough {
		fam = nil
		for off := 0; off < 8; off++ {
			for _, p := range pats(2, "01x") {
				fam = append(fam, c20f{p, off})
			}
		}
		out["offsets within a byte"] = fam
		fam = nil
		for _, p := range pats(8, "01") {
			fam = append(fam, c20f{p, 4})
		}
		out["eight bits at 4"] = fam[:64]
	}
	return out
}

// c20Crowds are families every subset of which is a group.
func c20Crowds(thorough bool) map[string][]c20f {
	out := map[string][]c20f{}
	byteWide := []string{"00000000", "10000000", "01000000", "00100001", "0000000x", "1111xxxx", "11111111", "0101", "1010", "1", "0xx1", "00"}
	var fam []c20f
	for _, p := range byteWide {
		fam = append(fam, c20f{p, 8})
	}
	two := []c20f{{"000000001", 2}, {"1111111111", 4}, {"0000", 6}, {"101", 7}, {"0x0x0", 5}, {"110011001100", 0}, {"01010101", 3}, {"11111", 4}, {"0110", 5}, {"000001", 6}, {"1x1", 7}}
	if !thorough {
		fam, two = fam[:11], two[:10]
	}
	out["every subset of byte-wide filters"] = fam
	out["every subset of filters over a boundary"] = two
	return out
}

func runC20(c *Ctx) {
	var evals atomic.Int64
	c.c20Probe()
	fams := c20Families(c.Thorough)
	var names []string
	for n := range fams {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, name := range names {
		fam := fams[name]
		n := len(fam)
		var groups [][]int
		for i := 0; i < n; i++ {
			groups = append(groups, []int{i})
			for j := 0; j < n; j++ {
				if i == j {
					continue
				}
				groups = append(groups, []int{i, j})
				for k := 0; k < j; k++ {
					if k != i {
						groups = append(groups, []int{i, j, k})
					}
				}
			}
		}
		c.Space("groups: "+name, len(groups))
		c.Parallel(len(groups), func(g int) {
			var fs []c20f
			seen := map[string]bool{}
			for _, i := range groups[g] {
				// the residual filters are keyed by the bit string: members with
				// the same string at different offsets are the recorded finding
				if seen[fam[i].bits] {
					return
				}
				seen[fam[i].bits] = true
				fs = append(fs, fam[i])
			}
			evals.Add(c.c20Group(fs))
		})
	}
	// groups of any size: every subset, in a few orders
	for name, fam := range c20Crowds(c.Thorough) {
		c.Space("groups: "+name, 1<<len(fam))
		c.Parallel(1<<len(fam), func(g int) {
			var fs []c20f
			for i, f := range fam {
				if g>>i&1 == 1 {
					fs = append(fs, f)
				}
			}
			if len(fs) == 0 {
				return
			}
			for o := 0; o < 3; o++ {
				switch o {
				case 1:
					slices.Reverse(fs)
				case 2:
					fs = append(append([]c20f{}, fs[len(fs)/3:]...), fs[:len(fs)/3]...)
				}
				evals.Add(c.c20Group(fs))
			}
		})
	}
	c.Count(evals.Load(), 0)
	c.Sample(fmt.Sprint(fams["boundary"][3:6]))
}

// c20Probe shows the recorded finding: members with equal strings.
func (c *Ctx) c20Probe() {
	fs := []c20f{{"1", 0}, {"1", 4}}
	comp := filtering.NewComposition([]*filtering.FilterObject{filtering.NewFilter("1", 0), filtering.NewFilter("1", 4)})
	_, _, ch, ok := compParts(comp)
	if ok && len(ch) < len(fs) {
		c.Violate("same-string", fs, "a group of filters with one bit string at two offsets keeps one residual filter only")
	}
}

func (c *Ctx) c20Group(fs []c20f) int64 {
	key := fmt.Sprint(fs)
	var comp *filtering.Composition
	var s string
	var off int
	var ch map[string]*filtering.FilterObject
	ok := false
	if !c.Try("comp:"+key, key, func() {
		var objs []*filtering.FilterObject
		head, tail := 0, 1<<30
		for _, f := range fs {
			o := filtering.NewFilter(f.bits, f.off)
			objs = append(objs, o)
			head = max(head, o.ByteOffset)
			tail = min(tail, o.ByteOffset+o.ByteSize)
		}
		if head >= tail {
			return // no common byte range
		}
		comp = filtering.NewComposition(objs)
		s, off, ch, ok = compParts(comp)
		if !ok {
			panic("the composition's parts cannot be read")
		}
	}) || comp == nil {
		return 0
	}
	composite := filtering.NewFilter(s, off)
	// the bits anybody looks at
	used := map[int]bool{}
	end := 32
	for _, f := range fs {
		for i := range f.bits {
			used[f.off+i] = true
		}
	}
	var pos []int
	for p := range used {
		pos = append(pos, p)
	}
	sort.Ints(pos)
	n := int64(0)
	yes, no := false, false
	for _, fill := range []byte{'0', '1'} {
		id := []byte(strings.Repeat(string(fill), end))
		for _, bits := range assignments(fs, pos, fill) {
			for i, p := range pos {
				id[p] = '0' + byte(bits>>uint(i)&1)
			}
			b := toBytes(string(id))
			hit := false
			cm := composite.Match(b)
			for _, f := range fs {
				want := f.match(string(id))
				hit = hit || want
				r := ch[f.bits]
				if r == nil {
					c.Violate("nochild:"+key, key, "group %s: member %v has no residual filter", key, f)
					return n
				}
				n++
				if got := cm && r.Match(b); got != want {
					c.Violate("sound:"+key, map[string]any{"group": key, "id": string(id)}, "group %s, ID %s: member %v accepts it: %v; composite %s at %d accepts it: %v, residual %s at %d: %v", key, id, f, want, s, off, cm, r.String, r.Offset, r.Match(b))
					return n
				}
			}
			if hit {
				yes = true
			} else {
				no = true
			}
		}
	}
	c.Eval(yes && no, key)
	return n
}

// assignments of the positions.
func assignments(fs []c20f, pos []int, fill byte) []uint64 {
	var out []uint64
	k := uint(len(pos))
	if k <= 14 {
		for a := uint64(0); a < 1<<k; a++ {
			out = append(out, a)
		}
		return out
	}
	bases := []uint64{0, 1<<k - 1}
	for _, f := range fs {
		a := uint64(0)
		for i, p := range pos {
			r := fill
			if p >= f.off && p < f.off+len(f.bits) && f.bits[p-f.off] != 'x' {
				r = f.bits[p-f.off]
			}
			if r == '1' {
				a |= 1 << uint(i)
			}
		}
		bases = append(bases, a)
	}
	for _, a := range bases {
		out = append(out, a)
		for i := uint(0); i < k; i++ {
			out = append(out, a^1<<i)
			for j := uint(0); j < i; j++ {
				out = append(out, a^1<<i^1<<j)
			}
		}
	}
	return out
}
