package main

import (
	"fmt"
	"strings"
	"sync/atomic"

	"github.com/iomz/gosstrak/scheme"
	"github.com/iomz/gosstrak/tdt"
)

func init() {
	checks["C08"] = check{
		level: "exploration",
		rule: "container codes: every owner code (26^3) x every category U/J/Z with boundary serials, every value of every serial digit position, in thorough all 10^6 serials for each category; transport-unit codes: every character of the 6-bit set at every position, every total length that the word count can announce (1..82 characters) in every split into four fields; the encoded tag, its PC bits, its translation, and the filters of all leading-field patterns (both derivations), each paired with tags that differ in one character or one length. " +
			"Non-trivial: distinct codes.",
		run: runC08,
	}
}

const sixChars = " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_"

type isoCode struct {
	std    string
	fields [4]string // 17363: 7B, owner, category, six digits; 17365: di, iac, cin, sn
}

// chars is what the tag must carry.
func (i isoCode) chars() string {
	s := strings.Join(i.fields[:], "")
	if i.std == "17363" {
		s += fmt.Sprint(checkDigit6346(s[2:]))
	}
	return s
}

func (i isoCode) make(pf bool, n int) (string, string) {
	f := i.fields
	for k := n; k < 4; k++ {
		f[k] = ""
	}
	if i.std == "17363" {
		return scheme.MakeISO(pf, "17363", f[1], f[2], f[3], "", "", "", "")
	}
	return scheme.MakeISO(pf, "17365", "", "", "", f[0], f[1], f[2], f[3])
}

func (i isoCode) String() string { return "iso" + i.std + ":" + strings.Join(i.fields[:], ".") }

// isoAgrees: the first n fields of p lead t's code. A full pattern includes the
// check digit.
func (p isoCode) leads(n int, t isoCode) bool {
	s := strings.Join(p.fields[:n], "")
	if n == 4 {
		s = p.chars()
	}
	return strings.HasPrefix(t.chars(), s)
}

// c08Tag checks one code's tag and returns its bits.
func (c *Ctx) c08Tag(i isoCode) (string, bool) {
	var bits, pc, id string
	var err error
	if !c.Try("iso:"+i.String(), i.String(), func() {
		bits, pc = i.make(false, 4)
	}) {
		return "", false
	}
	chars := i.chars()
	words := (6*len(chars) + 15) / 16
	if len(bits) != words*16 || !strings.HasPrefix(bits, six(chars)) {
		c.Violate("encode:"+i.String(), i.String(), "%s (%s) is encoded as %q, want %d words starting with %s", i, chars, bits, words, six(chars))
		return "", false
	}
	afi := "a9"
	if i.std == "17365" {
		afi = "a2"
	}
	if want := fmt.Sprintf("%02x", words<<3|1) + afi; pc != want {
		c.Violate("pc:"+i.String(), i.String(), "%s has PC %s, want %s", i, pc, want)
		return "", false
	}
	if !c.Try("isotr:"+i.String(), i.String(), func() {
		var pcb [2]byte
		fmt.Sscanf(pc, "%02x%02x", &pcb[0], &pcb[1])
		id, err = tdtCore.Translate(pcb[:], toBytes(bits))
	}) {
		return "", false
	}
	want := "urn:epc:id:iso" + i.std + ":" + strings.ReplaceAll(chars, " ", "")
	if err != nil || id != want {
		c.Violate("decode:"+i.String(), i.String(), "%s decodes to %q (%v), want %q", i, id, err, want)
		return "", false
	}
	return bits, true
}

func (c *Ctx) c08Cross(pats, tags []isoCode, evals *atomic.Int64) {
	bits := make([]string, len(tags))
	for k, t := range tags {
		b, ok := c.c08Tag(t)
		if !ok {
			return
		}
		bits[k] = b
		evals.Add(1)
	}
	for _, p := range pats {
		for n := 1; n <= 4; n++ {
			if c.Stopped() {
				return
			}
			var sub, gen, genText, genSub string
			var err error
			fs := append([]string{}, p.fields[:n]...)
			text := "urn:epc:pat:iso" + p.std + ":" + strings.Join(fs, ".")
			dots := strings.Contains(strings.Join(fs, ""), ".")
			if !c.Try("isopat:"+text, text, func() {
				sub, err = tdt.MakePrefixFilterString("iso"+p.std, fs)
				gen, genText = p.make(true, n)
				if t := strings.Split(strings.TrimPrefix(genText, "urn:epc:pat:"), ":"); len(t) == 2 && !dots {
					genSub, _ = tdt.MakePrefixFilterString(t[0], strings.Split(t[1], "."))
				} else {
					genSub = gen
				}
			}) {
				return
			}
			if err != nil || sub == "" {
				c.Violate("isoreject:"+text, text, "%s is rejected: %v", text, err)
				return
			}
			if genSub != gen {
				c.Violate("isogentext:"+text, text, "the generator returns filter %s but prints %q which denotes %s", gen, genText, genSub)
				return
			}
			for k, t := range tags {
				evals.Add(1)
				want := p.leads(n, t)
				for what, f := range map[string]string{"subscription": sub, "generator": gen} {
					if got := strings.HasPrefix(bits[k], f); got != want {
						c.Violate("isopair:"+what+text+t.String(), map[string]any{"pattern": text, "tag": t.String()},
							"%s: pattern %s (filter %s) selects tag %s (%s, %s): %v, want %v", what, text, f, t, t.chars(), bits[k], got, want)
						return
					}
				}
			}
			if n == 4 {
				c.Eval(true, p.String())
			}
		}
	}
}

var tdtCore = tdt.NewCore()

func runC08(c *Ctx) {
	var evals atomic.Int64
	var jobs []func()
	alpha := "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	// every owner code and category
	for a := range alpha {
		jobs = append(jobs, func() {
			for b := range alpha {
				for d := range alpha {
					oc := string(alpha[a]) + string(alpha[b]) + string(alpha[d])
					for _, ei := range []string{"U", "J", "Z"} {
						csns := []string{"000000", "305438"}
						if c.Thorough {
							csns = append(csns, "999999", "123456", "000001", "100000")
						}
						for _, csn := range csns {
							if c.Stopped() {
								return
							}
							i := isoCode{"17363", [4]string{"7B", oc, ei, csn}}
							if _, ok := c.c08Tag(i); !ok {
								return
							}
							evals.Add(1)
							c.c08Full(i)
							if csn == "305438" {
								c.Eval(true, i.String())
							}
						}
					}
				}
			}
		})
	}
	// serials
	n := 10_000
	if c.Thorough {
		n = 1_000_000
	}
	for blk := 0; blk < 20; blk++ {
		jobs = append(jobs, func() {
			for k := blk * n / 20; k < (blk+1)*n/20; k++ {
				if c.Stopped() {
					return
				}
				v := k
				if !c.Thorough {
					v = k * 100
					if k%2 == 1 {
						v = k
					}
				}
				for _, ei := range []string{"U", "J", "Z"} {
					i := isoCode{"17363", [4]string{"7B", "CSQ", ei, fmt.Sprintf("%06d", v)}}
					if _, ok := c.c08Tag(i); !ok {
						return
					}
					c.c08Full(i)
					evals.Add(1)
				}
			}
		})
	}
	// short serials are padded
	jobs = append(jobs, func() {
		for k := 0; k < 100000; k = k*3 + 1 {
			i := isoCode{"17363", [4]string{"7B", "CSQ", "U", fmt.Sprint(k)}}
			padded := isoCode{"17363", [4]string{"7B", "CSQ", "U", fmt.Sprintf("%06d", k)}}
			want := six(padded.chars())
			var gen, tag, sub string
			c.Try("short:"+i.String(), i.String(), func() {
				gen, _ = i.make(true, 4)
				tag, _ = i.make(false, 4)
				sub, _ = tdt.MakePrefixFilterString("iso17363", i.fields[:])
			})
			evals.Add(1)
			if !strings.HasPrefix(tag, want) || gen == "" || sub == "" || !strings.HasPrefix(tag, gen) || !strings.HasPrefix(tag, sub) {
				c.Violate("short:"+i.String(), i.String(), "serial %d: tag %s, filters %s and %s, want %s", k, tag, gen, sub, want)
			}
		}
	})
	// container neighbourhoods: one character changed at each position
	for _, base := range []isoCode{{"17363", [4]string{"7B", "CSQ", "U", "305438"}}, {"17363", [4]string{"7B", "AAA", "J", "000000"}}, {"17363", [4]string{"7B", "ZYX", "Z", "999999"}}} {
		jobs = append(jobs, func() {
			var all []isoCode
			all = append(all, base)
			for pos := 0; pos < 3; pos++ {
				for _, r := range alpha {
					x := base
					b := []byte(x.fields[1])
					b[pos] = byte(r)
					x.fields[1] = string(b)
					all = append(all, x)
				}
			}
			for _, e := range []string{"U", "J", "Z"} {
				x := base
				x.fields[2] = e
				all = append(all, x)
			}
			for pos := 0; pos < 6; pos++ {
				for d := byte('0'); d <= '9'; d++ {
					x := base
					b := []byte(x.fields[3])
					b[pos] = d
					x.fields[3] = string(b)
					all = append(all, x)
				}
			}
			c.c08Cross(all, all, &evals)
		})
	}
	// transport units: every character at every position of a short code
	for _, lens := range [][4]int{{1, 1, 1, 1}, {3, 2, 3, 5}, {2, 3, 1, 8}} {
		for pos := 0; pos < lens[0]+lens[1]+lens[2]+lens[3]; pos++ {
			jobs = append(jobs, func() {
				var all []isoCode
				for _, r := range sixChars {
					if r == ' ' {
						continue // the padding character cannot be told from padding
					}
					all = append(all, isoOf(lens, func(i int) byte {
						if i == pos {
							return byte(r)
						}
						return "25SUNABCD0123456789"[i%19]
					}))
				}
				c.c08Cross(all, all, &evals)
			})
		}
	}
	// every length, every split: tags of neighbouring lengths
	for total := 4; total <= 82; total++ {
		jobs = append(jobs, func() {
			var all []isoCode
			fill := func(i int) byte { return "0A9_Z!B?"[i%8] }
			for a := 1; a <= 3; a++ {
				for b := 1; b <= 3; b++ {
					for d := 1; d <= 9; d += 4 {
						for _, tt := range []int{total, total - 1, total + 1, total + 2} {
							if s := tt - a - b - d; s >= 1 && tt <= 82 {
								all = append(all, isoOf([4]int{a, b, d, s}, fill))
							}
						}
					}
				}
			}
			c.c08Cross(all, all, &evals)
		})
	}
	c.Parallel(len(jobs), func(i int) { jobs[i]() })
	c.Count(evals.Load(), 0)
	c.Space("blocks", len(jobs))
	c.Space("container codes: owner x category", 26*26*26*3)
	c.Space("container serials per category", n)
	c.Space("transport-unit code lengths", "4..82")
	c.Sample(isoCode{"17363", [4]string{"7B", "CSQ", "U", "305438"}}.String())
}

// c08Full checks that the whole-code patterns select the code's tag.
func (c *Ctx) c08Full(i isoCode) {
	bits := isoBits(i.chars())
	sub, err := tdt.MakePrefixFilterString("iso"+i.std, i.fields[:])
	gen, _ := i.make(true, 4)
	if err != nil || sub == "" || gen == "" || !strings.HasPrefix(bits, sub) || !strings.HasPrefix(bits, gen) {
		c.Violate("full:"+i.String(), i.String(), "%s: filters %s (%v) and %s do not select the tag %s", i, sub, err, gen, bits)
	}
}

func isoOf(lens [4]int, ch func(int) byte) isoCode {
	i := isoCode{std: "17365"}
	n := 0
	for k, l := range lens {
		b := make([]byte, l)
		for j := range b {
			b[j] = ch(n)
			n++
		}
		i.fields[k] = string(b)
	}
	return i
}
