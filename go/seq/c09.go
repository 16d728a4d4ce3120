package main

import (
	"fmt"
	"strings"
	"sync/atomic"
)

func init() {
	checks["C09"] = check{
		level: "exploration",
		rule: "every scheme x partition x filter value; the full product of the boundary values (extremes, every power of two and of ten with neighbours) of company prefix, reference and serial, and in addition every value of each field's low range (10^4 quick, 2*10^5 thorough) with the others at their extremes; each is encoded by the generator and translated, and the reference encoding is translated as well. Distinctness follows from every tag decoding to the identity it was made from, and is also checked directly on the encodings. " +
			"Non-trivial: distinct identities.",
		run: runC09,
	}
}

// c09One checks one encoding.
func (c *Ctx) c09One(e epcFields) bool {
	var gen, pc, a, b string
	var errA, errB error
	t := e.tag()
	ok := c.Try("rt:"+e.String(), e.String(), func() {
		gen, pc = schemeTag(e)
		if len(gen) == 96 {
			a, errA = tdtCore.Translate([]byte{0x30, 0}, toBytes(gen))
		}
		b, errB = tdtCore.Translate([]byte{0x30, 0}, t.id())
	})
	if !ok {
		return false
	}
	if len(gen) != 96 || pc != "3000" {
		c.Violate("enc:"+e.String(), e.String(), "%s is encoded as %q with PC %q", e, gen, pc)
		return false
	}
	if errA != nil || a != t.identity {
		c.Violate("rt:"+e.String(), e.String(), "%s is encoded as %s which translates to %q (%v), want %q", e, gen, a, errA, t.identity)
		return false
	}
	if errB != nil || b != t.identity {
		c.Violate("tr:"+e.String(), e.String(), "the tag %s of %s translates to %q (%v), want %q", t.bits, e, b, errB, t.identity)
		return false
	}
	return true
}

func runC09(c *Ctx) {
	var evals, distinct atomic.Int64
	var jobs []func()
	n := uint64(10_000)
	if c.Thorough {
		n = 200_000
	}
	for _, s := range schemes {
		for part := 0; part < 7; part++ {
			rd, rb := s.refRange(part)
			refs, refFew := []uint64{0}, []uint64{0}
			if rd > 0 {
				refs, refFew = boundary(rd, rb), few(rd, rb)
			}
			cps, cpFew := boundary(12-part, 64), few(12-part, 64)
			sers, serFew := []uint64{0}, []uint64{0}
			if s.serial {
				sers, serFew = boundary(12, 38), few(12, 38)
				// the serial range is that of its 38 bits
				sers = append(sers, 1<<38-1)
				serFew = append(serFew, 1<<38-1)
			}
			for f := 0; f < 8; f++ {
				jobs = append(jobs, func() {
					ident := map[string]string{}
					k := int64(0)
					defer func() { evals.Add(k) }()
					for ci, cp := range cps {
						for ri, r := range refs {
							for si, sr := range sers {
								if !c.Thorough && (ci+ri+si+f)%8 != 0 {
									continue
								}
								if c.Stopped() {
									return
								}
								k++
								e := epcFields{s, f, part, cp, r, sr}
								if !c.c09One(e) {
									return
								}
								if f == 0 || !c.Thorough && f < 8 {
									distinct.Add(1)
								}
								if f == 0 && (ci+ri+si)%8 == 0 {
									bits, _ := schemeTag(e)
									id := e.tag().identity
									if other, dup := ident[bits]; dup && other != id {
										c.Violate("dup:"+id, []string{id, other}, "%s and %s encode to the same tag %s", id, other, bits)
									}
									ident[bits] = id
								}
							}
						}
					}
				})
			}
			jobs = append(jobs, func() {
				k := int64(0)
				defer func() { evals.Add(k); distinct.Add(k) }()
				ex := func(vs []uint64) []uint64 { return []uint64{vs[0], vs[len(vs)-1]} }
				for _, x := range ex(cpFew) {
					for _, y := range ex(refFew) {
						for _, z := range ex(serFew) {
							run := func(lo, hi uint64, mk func(uint64) epcFields) {
								for v := lo; v < hi; v++ {
									if c.Stopped() {
										return
									}
									k++
									if !c.c09One(mk(v)) {
										return
									}
								}
							}
							if x == cpFew[0] {
								run(1, min(n, pow10(12-part)-1), func(v uint64) epcFields { return epcFields{s, 5, part, v, y, z} })
							}
							if rd > 0 && y == refFew[0] {
								run(1, min(n, pow10(rd)-1), func(v uint64) epcFields { return epcFields{s, 5, part, x, v, z} })
							}
							if s.serial && z == serFew[0] {
								run(1, n, func(v uint64) epcFields { return epcFields{s, 5, part, x, y, v} })
							}
						}
					}
				}
			})
		}
	}
	c.Parallel(len(jobs), func(i int) { jobs[i]() })
	c.Count(evals.Load(), distinct.Load())
	c.Space("blocks", len(jobs))
	c.Space("low range per field", n)
	e := epcFields{schemes[0], 3, 5, 614141, 812345, 6789}
	c.Sample(fmt.Sprintf("%s -> %s -> %s", strings.TrimSpace(e.String()), e.tag().bits, e.tag().identity))
}
