package main

import (
	"fmt"
	"sort"
	"strings"
)

// boundary returns the interesting values of a field with the given number of
// decimal digits that must also fit in the given number of bits: extremes, every
// power of two and of ten with their neighbours, and digit patterns.
func boundary(digitsN, bits int) []uint64 {
	max := pow10(digitsN) - 1
	if bits < 64 && uint64(1)<<uint(bits)-1 < max {
		max = uint64(1)<<uint(bits) - 1
	}
	set := map[uint64]bool{0: true, max: true}
	add := func(v uint64) {
		if v <= max {
			set[v] = true
		}
	}
	for i := 0; i < bits; i++ {
		add(uint64(1) << uint(i))
		add(uint64(1)<<uint(i) - 1)
	}
	for i := 0; i <= digitsN; i++ {
		add(pow10(i) - 1)
		add(pow10(i))
	}
	add(max / 9)
	add(max / 3)
	add(max / 3 * 2)
	return sortedSet(set)
}

// few returns a handful of values of the same field.
func few(digitsN, bits int) []uint64 {
	max := pow10(digitsN) - 1
	if bits < 64 && uint64(1)<<uint(bits)-1 < max {
		max = uint64(1)<<uint(bits) - 1
	}
	set := map[uint64]bool{0: true, max: true}
	for _, v := range []uint64{1, max / 9, max / 3, max / 10, max - 1} {
		if v <= max {
			set[v] = true
		}
	}
	return sortedSet(set)
}

func sortedSet(set map[uint64]bool) []uint64 {
	out := make([]uint64, 0, len(set))
	for v := range set {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// fields of one EPC tag of the reference model.
type epcFields struct {
	s         *epcScheme
	filter    int
	partition int
	cp, ref   uint64
	ser       uint64
}

func (e epcFields) tag() *refTag {
	return epcTag(e.s.name, e.filter, e.partition, e.cp, e.ref, e.ser)
}

// texts returns the pattern fields: filter, company prefix, reference, serial.
func (e epcFields) texts() []string {
	out := []string{fmt.Sprint(e.filter), digits(e.cp, 12-e.partition)}
	switch {
	case e.s.urn == "giai":
		out = append(out, fmt.Sprint(e.ref))
	case e.s.refDig[e.partition] == 0:
		out = append(out, "0")
	default:
		out = append(out, digits(e.ref, e.s.refDig[e.partition]))
	}
	if e.s.serial {
		out = append(out, fmt.Sprint(e.ser))
	}
	return out
}

// agrees reports whether tag t carries the first n fields of e.
func (e epcFields) agrees(n int, t epcFields) bool {
	if e.s != t.s || e.filter != t.filter {
		return false
	}
	if n >= 2 && (e.partition != t.partition || e.cp != t.cp) {
		return false
	}
	if n >= 3 && e.ref != t.ref {
		return false
	}
	return n < 4 || e.ser == t.ser
}

func (e epcFields) String() string {
	return e.s.name + ":" + strings.Join(e.texts(), ".")
}

func (s *epcScheme) nfields() int {
	if s.serial {
		return 4
	}
	return 3
}

// refMax is the number of digits a reference of the scheme may have, and
// the bits that hold it.
func (s *epcScheme) refRange(p int) (dig, bits int) { return s.refDig[p], s.refBits[p] }

// refTranslate is the reference translation. lax: the input is a supported tag
// except for bits the property leaves open, so an error is as good.
func refTranslate(pc, id []byte) (identity string, ok, lax bool) {
	if len(pc) != 2 {
		return "", false, false
	}
	if pc[0]&1 == 1 {
		std, known := afiStandards[pc[1]]
		if !known {
			return "", false, false
		}
		chars := unsix(toBits(id))
		return "urn:epc:id:iso" + std + ":" + chars, true, chars == "" || len(id)%2 != 0
	}
	if len(id) != 12 {
		return "", false, false
	}
	var s *epcScheme
	for _, x := range schemes {
		if x.header == id[0] {
			s = x
		}
	}
	if s == nil {
		return "", false, false
	}
	b := toBits(id)
	part := int(field(b, 11, 3).Int64())
	if part > 6 {
		return "", false, false
	}
	cp := field(b, 14, cpBits[part]).Uint64()
	off := 14 + cpBits[part]
	ref := field(b, off, s.refBits[part]).Uint64()
	off += s.refBits[part]
	if cp >= pow10(12-part) {
		return "", false, false
	}
	if dig := s.refDig[part]; dig > 0 {
		// 10^19 does not fit the 62 bits it is compared with
		if dig < 19 && ref >= pow10(dig) {
			return "", false, false
		}
	} else if ref != 0 {
		lax = true
	}
	var ser uint64
	if s.serial {
		ser = field(b, off, 38).Uint64()
	}
	if s.pad > 0 && field(b, off, s.pad).Sign() != 0 {
		lax = true
	}
	return s.identity(part, cp, ref, ser), true, lax
}

var afiStandards = map[byte]string{
	0xA1: "17367", 0xA2: "17365", 0xA3: "17364", 0xA4: "17367h", 0xA5: "17366",
	0xA6: "17366h", 0xA7: "17365h", 0xA8: "17364h", 0xA9: "17363", 0xAA: "17363h",
}
