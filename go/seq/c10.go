package main

import (
	"fmt"
	"sync/atomic"
)

func init() {
	checks["C10"] = check{
		level: "exploration",
		rule: "every PC of length 0..3 bytes (all 65536 two-byte values) with representative IDs of both kinds; every EPC header x filter x partition with company prefix and reference at and around their decimal limits; every ID length 0..33 with every header and several fills; all single and double bit flips (thorough: triple) of valid tags of every scheme and partition; every AFI with every single 6-bit character at every position and all lengths. Each result is compared with the reference translation. " +
			"Non-trivial: inputs the reference translates, and inputs that differ from those in at most three bits.",
		run: runC10,
	}
}

func (c *Ctx) c10One(pc, id []byte) (ok bool) {
	want, good, lax := refTranslate(pc, id)
	var got string
	var err error
	var p any
	func() {
		defer func() { p = recover() }()
		got, err = tdtCore.Translate(pc, id)
	}()
	switch {
	case p != nil:
		ok = false
	case err != nil:
		ok = got == "" && (!good || lax)
	default:
		ok = good && got == want
	}
	if !ok {
		key := fmt.Sprintf("%x/%x", pc, id)
		w := fmt.Sprintf("%q", want)
		if !good {
			w = "an error and no identity"
		}
		c.Violate(key, map[string]any{"pc": fmt.Sprintf("%x", pc), "id": fmt.Sprintf("%x", id)}, "Translate(%x, %x) = %q, %v (panic: %v), want %s", pc, id, got, err, p, w)
	}
	return ok
}

func runC10(c *Ctx) {
	var evals, nontriv atomic.Int64
	var jobs []func()
	one := func(pc, id []byte, nt bool) bool {
		evals.Add(1)
		if nt {
			nontriv.Add(1)
		}
		return c.c10One(pc, id) && !c.Stopped()
	}
	gs1 := []byte{0x30, 0}
	ids := [][]byte{
		epcTag("sgtin-96", 3, 5, 614141, 812345, 6789).id(),
		epcTag("giai-96", 3, 1, 12345678901, 5, 0).id(),
		isoTag("17363", "7BCSQU3054383").id(),
		{}, {0}, {0x30},
	}
	for b := 0; b < 256; b++ {
		jobs = append(jobs, func() {
			for d := 0; d < 256; d++ {
				for k, id := range ids {
					if !one([]byte{byte(b), byte(d)}, id, k < 3) {
						return
					}
				}
			}
			for k, id := range ids {
				one([]byte{byte(b)}, id, false)
				one([]byte{byte(b), 0xA9, 0}, id, false)
				if b == 0 {
					one(nil, id, false)
					one([]byte{}, id, false)
				}
				_ = k
			}
			// every length with this header
			for l := 0; l <= 33; l++ {
				for _, fill := range []byte{0, 0xff, 0x74, 0x55, 0xaa} {
					id := make([]byte, l)
					for i := range id {
						id[i] = fill
					}
					if l > 0 {
						id[0] = byte(b)
					}
					for _, pc := range [][]byte{gs1, {0x31, 0xA9}, {0x31, 0xA2}, {byte(l / 2 << 3), 0}} {
						if !one(pc, id, false) {
							return
						}
					}
				}
			}
		})
	}
	// decimal limits
	for h := 0; h < 256; h++ {
		jobs = append(jobs, func() {
			var s *epcScheme
			for _, x := range schemes {
				if int(x.header) == h {
					s = x
				}
			}
			for f := 0; f < 8; f++ {
				for part := 0; part < 8; part++ {
					cb, refb, rd, cd := 40, 4, 1, 12
					if part < 7 {
						cb, cd = cpBits[part], 12-part
						refb = 44 - cb
						rd = part + 1
						if s != nil {
							refb, rd = s.refBits[part], s.refDig[part]
						}
					}
					rest := 96 - 14 - cb - refb
					for _, cp := range limits(cd, cb) {
						for _, ref := range limits(rd, refb) {
							for _, tail := range []uint64{0, 1, uint64(1)<<uint(min(rest, 62)) - 1} {
								if tail > 0 && rest == 0 {
									continue
								}
								b := bin(uint64(h), 8) + bin(uint64(f), 3) + bin(uint64(part), 3) + bin(cp, cb) + bin(ref, refb) + bin(tail, rest)
								if !one(gs1, toBytes(b), s != nil) {
									return
								}
							}
						}
					}
				}
			}
		})
	}
	// bit flips of valid tags
	for _, s := range schemes {
		for part := 0; part < 7; part++ {
			for _, full := range []bool{false, true} {
				jobs = append(jobs, func() {
					e := epcFields{s: s, filter: 3, partition: part}
					rd, rb := s.refRange(part)
					if full {
						e.cp = pow10(12-part) - 1
						if rd > 0 {
							v := few(rd, rb)
							e.ref = v[len(v)-1]
						}
						if s.serial {
							e.ser = 1<<38 - 1
						}
					}
					base := e.tag().id()
					id := append([]byte{}, base...)
					flip := func(i int) { id[i/8] ^= 0x80 >> uint(i%8) }
					for i := 0; i < 96; i++ {
						flip(i)
						if !one(gs1, id, true) {
							return
						}
						for j := 0; j < i; j++ {
							flip(j)
							if !one(gs1, id, true) {
								return
							}
							if c.Thorough {
								for k := 0; k < j; k++ {
									flip(k)
									if !one(gs1, id, true) {
										return
									}
									flip(k)
								}
							}
							flip(j)
						}
						flip(i)
					}
				})
			}
		}
	}
	// ISO characters
	for afi := 0; afi < 256; afi++ {
		jobs = append(jobs, func() {
			_, known := afiStandards[byte(afi)]
			for l := 0; l <= 16; l++ {
				for pos := 0; pos < max(1, l); pos++ {
					for ch := 0; ch < 64; ch++ {
						s := ""
						for i := 0; i < l; i++ {
							if i == pos {
								s += bin(uint64(ch), 6)
							} else {
								s += bin(uint64(i*7+1)%64, 6)
							}
						}
						for len(s)%16 != 0 {
							s += string("100000"[(len(s)-6*l)%6])
						}
						if !one([]byte{byte(len(s)/16<<3 | 1), byte(afi)}, toBytes(s), known) {
							return
						}
						if l == 0 || !known {
							break
						}
					}
				}
			}
			if c.Thorough && known {
				// all two-byte and three-byte IDs
				for v := 0; v < 1<<16; v++ {
					if !one([]byte{0x09, byte(afi)}, []byte{byte(v >> 8), byte(v)}, true) {
						return
					}
				}
				for v := 0; v < 1<<24; v += 5 {
					if !one([]byte{0x11, byte(afi)}, []byte{byte(v >> 16), byte(v >> 8), byte(v)}, true) {
						return
					}
				}
			}
		})
	}
	c.Parallel(len(jobs), func(i int) { jobs[i]() })
	c.Count(evals.Load(), nontriv.Load())
	c.Space("blocks", len(jobs))
	c.Sample(fmt.Sprintf("Translate(%x, %x)", gs1, ids[0]))
	c.Sample(fmt.Sprintf("Translate(%x, %x)", []byte{0x31, 0xA9}, ids[2]))
}

// limits are the values around the decimal limit of a field and its bit limit.
func limits(dig, bits int) []uint64 {
	max := uint64(1)<<uint(bits) - 1
	set := map[uint64]bool{0: true, 1: true, max: true, max - 1: true, max / 2: true}
	for d := dig - 1; d <= dig+1; d++ {
		if d < 0 || d > 19 {
			continue
		}
		p := pow10(d)
		for _, v := range []uint64{p - 2, p - 1, p, p + 1} {
			if v <= max {
				set[v] = true
			}
		}
	}
	return sortedSet(set)
}
