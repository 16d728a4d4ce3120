package main

import (
	"fmt"
	"sync/atomic"

	"github.com/iomz/gosstrak/filtering"
)

func init() {
	checks["C01"] = check{
		level: "exploration",
		rule: "every pattern over {0,1,x} up to the stated length, at every bit offset, against every assignment of the window bits over several backgrounds, every single-bit change outside the window, and every ID length around the filter's end; " +
			"plus long patterns with one deviating position. Non-trivial: the pattern has at least one 0/1 bit and the ID is long enough to decide.",
		run: runC01,
	}
}

// refMatch is the meaning of a filter: every 0/1 bit equals the ID's bit.
func refMatch(pat string, off int, id []byte) bool {
	if off+len(pat) > len(id)*8 {
		return false
	}
	for i := 0; i < len(pat); i++ {
		if pat[i] == 'x' {
			continue
		}
		p := off + i
		bit := id[p/8] >> uint(7-p%8) & 1
		if bit != pat[i]-'0' {
			return false
		}
	}
	return true
}

func (c *Ctx) c01Match(f *filtering.FilterObject, pat string, off int, id []byte) bool {
	var got bool
	if p := catch(func() { got = f.Match(id) }); p != nil {
		c.Violate("match-panic", map[string]any{"pattern": pat, "offset": off, "id": fmt.Sprintf("%x", id)}, "Match: %v", p)
		return false
	}
	want := refMatch(pat, off, id)
	if got != want {
		c.Violate(fmt.Sprintf("match:%s@%d:%x", pat, off, id), map[string]any{"pattern": pat, "offset": off, "id": fmt.Sprintf("%x", id)},
			"filter %s at offset %d and ID %x (%s): Match = %v, want %v", pat, off, id, toBits(id), got, want)
		return false
	}
	return true
}

// c01View checks the byte-level view.
func (c *Ctx) c01View(f *filtering.FilterObject, pat string, off int) bool {
	first, last := off/8, (off+len(pat)-1)/8
	in := map[string]any{"pattern": pat, "offset": off}
	key := fmt.Sprintf("view:%s@%d", pat, off)
	ok := true
	p := catch(func() {
		transparent := true
		for b := 0; b <= last+2; b++ {
			has := f.HasByteAt(b)
			want := b >= first && b <= last
			if has != want {
				ok = false
				c.Violate(key, in, "filter %s at offset %d: HasByteAt(%d) = %v, want %v", pat, off, b, has, want)
				return
			}
			bf, bm, err := f.GetByteAt(b)
			if (err == nil) != want {
				ok = false
				c.Violate(key, in, "filter %s at offset %d: GetByteAt(%d) error %v", pat, off, b, err)
				return
			}
			if !want {
				continue
			}
			for i := 0; i < 8; i++ {
				pos := b*8 + i - off
				fb, mb := bf>>uint(7-i)&1, bm>>uint(7-i)&1
				wantMask, wantBit := byte(1), byte(1)
				if pos >= 0 && pos < len(pat) && pat[pos] != 'x' {
					wantMask, wantBit = 0, pat[pos]-'0'
					transparent = false
				}
				if mb != wantMask || (wantMask == 0 && fb != wantBit) {
					ok = false
					c.Violate(key, in, "filter %s at offset %d: byte %d is %08b mask %08b", pat, off, b, bf, bm)
					return
				}
			}
		}
		if f.IsTransparent() != transparent {
			ok = false
			c.Violate(key, in, "filter %s at offset %d: IsTransparent = %v", pat, off, !transparent)
			return
		}
		if f.Size != len(pat) || f.Offset != off || f.ByteOffset != first || f.ByteSize != last-first+1 ||
			len(f.ByteFilter) != f.ByteSize || len(f.ByteMask) != f.ByteSize || f.String != pat {
			ok = false
			c.Violate(key, in, "filter %s at offset %d: size %d offset %d bytes %d+%d", pat, off, f.Size, f.Offset, f.ByteOffset, f.ByteSize)
		}
	})
	if p != nil {
		c.Violate(key, in, "filter %s at offset %d: %v", pat, off, p)
		return false
	}
	return ok
}

func runC01(c *Ctx) {
	maxLen, maxOff := 8, 17
	if c.Thorough {
		maxLen, maxOff = 10, 17
	}
	var evals, nontriv atomic.Int64
	type job struct{ n, idx, off int }
	var jobs []job
	p3 := 1
	for n := 1; n <= maxLen; n++ {
		p3 *= 3
		for o := 0; o <= maxOff; o++ {
			for chunk := 0; chunk < p3; chunk += 243 {
				jobs = append(jobs, job{n, chunk, o})
			}
		}
	}
	c.Space("short_patterns_max_len", maxLen)
	c.Space("max_offset", maxOff)
	c.Parallel(len(jobs), func(j int) {
		jb := jobs[j]
		total := 1
		for i := 0; i < jb.n; i++ {
			total *= 3
		}
		buf := make([]byte, jb.n)
		for idx := jb.idx; idx < jb.idx+243 && idx < total; idx++ {
			x := idx
			care := 0
			for i := range buf {
				buf[i] = "01x"[x%3]
				if x%3 != 2 {
					care++
				}
				x /= 3
			}
			pat := string(buf)
			var f *filtering.FilterObject
			if p := catch(func() { f = filtering.NewFilter(pat, jb.off) }); p != nil {
				c.Violate("new", map[string]any{"pattern": pat, "offset": jb.off}, "NewFilter: %v", p)
				return
			}
			if !c.c01View(f, pat, jb.off) {
				return
			}
			last := (jb.off + jb.n - 1) / 8
			n, nt := int64(1), int64(0)
			for _, bg := range []byte{0x00, 0xff} {
				id := make([]byte, last+2)
				for i := range id {
					id[i] = bg
				}
				for w := 0; w < 1<<uint(jb.n); w++ {
					for i := 0; i < jb.n; i++ {
						pos := jb.off + i
						if w>>uint(i)&1 == 1 {
							id[pos/8] |= 1 << uint(7-pos%8)
						} else {
							id[pos/8] &^= 1 << uint(7-pos%8)
						}
					}
					if !c.c01Match(f, pat, jb.off, id) || !c.c01Match(f, pat, jb.off, id[:last+1]) {
						return
					}
					n += 2
				}
				// the bits outside, one at a time, around a matching window
				for i := 0; i < jb.n; i++ {
					pos := jb.off + i
					id[pos/8] &^= 1 << uint(7-pos%8)
					if pat[i] == '1' {
						id[pos/8] |= 1 << uint(7-pos%8)
					}
				}
				for b := 0; b < len(id)*8; b++ {
					id[b/8] ^= 1 << uint(7-b%8)
					if !c.c01Match(f, pat, jb.off, id) {
						return
					}
					id[b/8] ^= 1 << uint(7-b%8)
					n++
				}
				for l := 0; l <= last; l++ {
					if !c.c01Match(f, pat, jb.off, id[:l]) {
						return
					}
					n++
				}
			}
			if care > 0 {
				nt = n
			}
			evals.Add(n)
			nontriv.Add(nt)
		}
	})
	// long patterns: one deviating position on a uniform or alternating base
	var lens []int
	for n := 8; n <= 112; n++ {
		if c.Thorough || n <= 20 || n%8 <= 1 || n%8 == 7 || n == 58 || n == 62 {
			lens = append(lens, n)
		}
	}
	offs := []int{0, 1, 3, 7, 8, 11, 14}
	c.Space("long_pattern_lengths", len(lens))
	type lj struct{ n, off int }
	var ljs []lj
	for _, n := range lens {
		for _, o := range offs {
			ljs = append(ljs, lj{n, o})
		}
	}
	c.Parallel(len(ljs), func(j int) {
		n, off := ljs[j].n, ljs[j].off
		var cnt int64
		for _, base := range []string{"0", "1", "x", "01", "0x1"} {
			b := make([]byte, n)
			for i := range b {
				b[i] = base[i%len(base)]
			}
			for p := -1; p < n; p++ {
				for _, dev := range []byte("01x") {
					if p < 0 && dev != '0' {
						continue
					}
					q := append([]byte{}, b...)
					if p >= 0 {
						if q[p] == dev {
							continue
						}
						q[p] = dev
					}
					pat := string(q)
					f := filtering.NewFilter(pat, off)
					if !c.c01View(f, pat, off) {
						return
					}
					id := make([]byte, (off+n-1)/8+2)
					for i := 0; i < n; i++ {
						if pat[i] == '1' || (pat[i] == 'x' && i%3 == 0) {
							id[(off+i)/8] |= 1 << uint(7-(off+i)%8)
						}
					}
					if !c.c01Match(f, pat, off, id) {
						return
					}
					for k := 0; k < len(id)*8; k++ {
						id[k/8] ^= 1 << uint(7-k%8)
						if !c.c01Match(f, pat, off, id) {
							return
						}
						id[k/8] ^= 1 << uint(7-k%8)
					}
					for l := 0; l < len(id); l++ {
						if !c.c01Match(f, pat, off, id[:l]) {
							return
						}
					}
					cnt += int64(1 + len(id)*9)
				}
			}
		}
		evals.Add(cnt)
		nontriv.Add(cnt)
	})
	c.Count(evals.Load(), nontriv.Load())
	c.Sample(map[string]any{"pattern": "01x", "offset": 6, "id": "fd00", "match": refMatch("01x", 6, []byte{0xfd, 0})})
	c.Sample(map[string]any{"pattern": "1x0", "offset": 17, "id": "ffffbf", "match": refMatch("1x0", 17, []byte{0xff, 0xff, 0xbf})})
}
