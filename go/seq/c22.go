//go:build overlay

package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync/atomic"

	"github.com/iomz/go-llrp"
	"github.com/iomz/go-llrp/binutil"
	"github.com/iomz/gosstrak/scheme"
	"verif.local/v/gobtags"
)

func init() {
	checks["C22"] = check{
		level: "exploration",
		rule: "the converter's parsers: every bit string of up to 16 bits (of every length, valid or not), single set and cleared bits at every position of lengths up to 512, every 16-bit PC in both letter cases, malformed PCs; the converter command itself (built from the tree, run on files): every sequence of up to 2 (thorough 3) lines over an alphabet of tags and malformed lines, one file with every PC value, one with every length and walking bit; the printed forms of every PC and of every byte value at every position. " +
			"Non-trivial: distinct accepted inputs.",
		run: runC22,
	}
}

func runC22(c *Ctx) {
	var evals, nontriv atomic.Int64
	// bit strings
	oneID := func(s string) bool {
		var got []byte
		var err error
		if !c.Try("id:"+s, s, func() { got, err = gobtags.MakeByteID(s) }) {
			return false
		}
		evals.Add(1)
		if len(s) == 0 || len(s)%8 != 0 {
			if err == nil {
				c.Violate("id:"+s, s, "bit string %q is accepted as %v", s, got)
				return false
			}
			return true
		}
		nontriv.Add(1)
		if err != nil || !reflect.DeepEqual(got, toBytes(s)) {
			c.Violate("id:"+s, s, "bit string %q becomes %v (%v), want %v", s, got, err, toBytes(s))
			return false
		}
		return true
	}
	c.Parallel(17, func(l int) {
		for v := 0; v < 1<<uint(l); v++ {
			if c.Stopped() || !oneID(bin(uint64(v), l)) {
				return
			}
		}
	})
	c.Parallel(496, func(i int) {
		l := i + 17
		for p := 0; p < l; p++ {
			z := []byte(strings.Repeat("0", l))
			z[p] = '1'
			o := []byte(strings.Repeat("1", l))
			o[p] = '0'
			if c.Stopped() || !oneID(string(z)) || !oneID(string(o)) {
				return
			}
		}
	})
	// PC values
	for v := 0; v < 1<<16 && !c.Stopped(); v++ {
		for _, f := range []string{"%04x", "%04X", "%x"} {
			s := fmt.Sprintf(f, v)
			got, err := gobtags.MakeUint16PC(s)
			evals.Add(1)
			if err != nil || got != uint16(v) {
				c.Violate("pc:"+s, s, "PC %q becomes %#x (%v)", s, got, err)
			}
		}
		nontriv.Add(1)
	}
	for _, s := range []string{"", "g000", "10000", "-1", "0x30", " 3000", "3000 ", "30.0", "ffffffffffffffffffff", "3_000"} {
		got, err := gobtags.MakeUint16PC(s)
		evals.Add(1)
		if err == nil {
			c.Violate("pc:"+s, s, "malformed PC %q is accepted as %#x", s, got)
		}
	}
	// printed forms
	printed := func(pc uint16, bits string) {
		h := fmt.Sprintf("%04x", pc)
		evals.Add(1)
		var id, lit string
		if !c.Try("print:"+h+bits, []string{h, bits}, func() { id, lit = scheme.PrintID(bits, h), scheme.PrintGoBytes(bits, h) }) {
			return
		}
		p := strings.Split(id, ",")
		if len(p) != 2 || p[0] != h || p[1] != bits {
			c.Violate("printid:"+h+bits, []string{h, bits}, "PrintID(%q, %q) = %q", bits, h, id)
		}
		var parts [][]byte
		for _, x := range strings.Split(strings.TrimSuffix(lit, "}"), "},") {
			var b []byte
			for _, n := range strings.Split(strings.TrimPrefix(x, "[]byte{"), ",") {
				v, err := strconv.ParseUint(strings.TrimSpace(n), 0, 8)
				if err != nil {
					b = nil
					break
				}
				b = append(b, byte(v))
			}
			parts = append(parts, b)
		}
		if len(parts) != 2 || !reflect.DeepEqual(parts[0], []byte{byte(pc >> 8), byte(pc)}) || !reflect.DeepEqual(parts[1], toBytes(bits)) {
			c.Violate("printgo:"+h+bits, []string{h, bits}, "PrintGoBytes(%q, %q) = %s", bits, h, lit)
		}
	}
	c.Parallel(256, func(hi int) {
		for lo := 0; lo < 256; lo++ {
			if c.Stopped() {
				return
			}
			printed(uint16(hi<<8|lo), epcTag("sgtin-96", 3, 5, 614141, 812345, 6789).bits)
		}
		for l := 1; l <= 64; l++ {
			for p := 0; p < l; p++ {
				b := make([]byte, l)
				b[p] = byte(hi)
				printed(0x3000, toBits(b))
			}
		}
	})
	// the command
	exe := filepath.Join(c.Scratch, "gobtags")
	type line struct {
		text string
		tag  *llrp.Tag
	}
	mk := func(pc uint16, bits string) line {
		return line{fmt.Sprintf("%04x,%s", pc, bits), &llrp.Tag{PCBits: pc, EPC: toBytes(bits)}}
	}
	s := epcTag("sgtin-96", 3, 5, 614141, 812345, 6789).bits
	i := isoTag("17363", "7BCSQU3054383").bits
	alphabet := []line{
		mk(0x3000, s), mk(0x31A9, i), mk(0x3000, strings.Repeat("0", 96)), mk(0x0800, strings.Repeat("1", 16)), mk(0xf800, strings.Repeat("10", 248)), mk(0, "00000001"),
		{"3000," + s[1:], nil}, {"3000,", nil}, {"zzzz," + s, nil}, {"," + s, nil}, {"10000," + s, nil},
	}
	var n atomic.Int64
	convert := func(key string, ls []line) {
		k := n.Add(1)
		in, out := filepath.Join(c.Scratch, fmt.Sprintf("in%d.csv", k)), filepath.Join(c.Scratch, fmt.Sprintf("out%d.gob", k))
		var sb strings.Builder
		var want []llrp.Tag
		for _, l := range ls {
			sb.WriteString(l.text + "\n")
			if l.tag != nil {
				want = append(want, *l.tag)
			}
		}
		os.WriteFile(in, []byte(sb.String()), 0o644)
		defer os.Remove(in)
		defer os.Remove(out)
		evals.Add(1)
		cmd := exec.Command(exe, in, "--out", out)
		cmd.Dir = c.Scratch
		msg, err := cmd.CombinedOutput()
		if err != nil {
			c.Violate("conv:"+key, clip(sb.String(), 2000), "the converter fails on %q: %v %s", clip(sb.String(), 300), err, clip(string(msg), 600))
			return
		}
		var got llrp.Tags
		if err := binutil.Load(out, &got); err != nil {
			c.Violate("conv:"+key, clip(sb.String(), 2000), "the file converted from %q cannot be read: %v", clip(sb.String(), 300), err)
			return
		}
		if len(got) != len(want) {
			c.Violate("conv:"+key, clip(sb.String(), 2000), "%d tags converted from %q, want %d", len(got), clip(sb.String(), 300), len(want))
			return
		}
		for j, g := range got {
			if g.PCBits != want[j].PCBits || string(g.EPC) != string(want[j].EPC) {
				c.Violate("conv:"+key, clip(sb.String(), 2000), "tag %d converted from %q is %04x %x, want %04x %x", j, clip(sb.String(), 300), g.PCBits, g.EPC, want[j].PCBits, want[j].EPC)
				return
			}
		}
		if len(want) > 0 {
			nontriv.Add(1)
		}
	}
	var jobs []func()
	maxLines := 2
	if c.Thorough {
		maxLines = 3
	}
	for l, k := 1, len(alphabet); l <= maxLines; l, k = l+1, k*len(alphabet) {
		for x := 0; x < k; x++ {
			jobs = append(jobs, func() {
				var ls []line
				for y, j := x, 0; j < l; j++ {
					ls = append(ls, alphabet[y%len(alphabet)])
					y /= len(alphabet)
				}
				convert(fmt.Sprint(l, x), ls)
			})
		}
	}
	jobs = append(jobs, func() {
		var ls []line
		for v := 0; v < 1<<16; v++ {
			ls = append(ls, mk(uint16(v), s))
		}
		convert("allpc", ls)
	}, func() {
		var ls []line
		for l := 8; l <= 256; l += 8 {
			for p := 0; p < l; p++ {
				b := []byte(strings.Repeat("0", l))
				b[p] = '1'
				ls = append(ls, mk(0x3000, string(b)))
			}
		}
		convert("walk", ls)
	})
	c.Parallel(len(jobs), func(j int) { jobs[j]() })
	c.Count(evals.Load(), nontriv.Load())
	c.Space("files converted", len(jobs))
	c.Sample(alphabet[0].text)
	c.Sample(alphabet[6].text)
}
