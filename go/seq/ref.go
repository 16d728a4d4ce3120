package main

import (
	"fmt"
	"math/big"
	"strings"
)

// Reference model of the GS1 and ISO codings, written from the standards and the
// property texts. Nothing here calls the code under test.

type epcScheme struct {
	name    string // pattern type, e.g. sgtin-96
	urn     string // identity type, e.g. sgtin
	header  byte
	refBits [7]int // by partition 0..6 (company prefix of 12..6 digits)
	refDig  [7]int
	serial  bool // has a 38-bit serial
	pad     int  // trailing reserved bits
}

var cpBits = [7]int{40, 37, 34, 30, 27, 24, 20}

var schemes = []*epcScheme{
	{name: "sgtin-96", urn: "sgtin", header: 0x30, refBits: [7]int{4, 7, 10, 14, 17, 20, 24}, refDig: [7]int{1, 2, 3, 4, 5, 6, 7}, serial: true},
	{name: "sscc-96", urn: "sscc", header: 0x31, refBits: [7]int{18, 21, 24, 28, 31, 34, 38}, refDig: [7]int{5, 6, 7, 8, 9, 10, 11}, pad: 24},
	{name: "grai-96", urn: "grai", header: 0x33, refBits: [7]int{4, 7, 10, 14, 17, 20, 24}, refDig: [7]int{0, 1, 2, 3, 4, 5, 6}, serial: true},
	{name: "giai-96", urn: "giai", header: 0x34, refBits: [7]int{42, 45, 48, 52, 55, 58, 62}, refDig: [7]int{13, 14, 15, 16, 17, 18, 19}},
}

func schemeByName(n string) *epcScheme {
	for _, s := range schemes {
		if s.name == n {
			return s
		}
	}
	return nil
}

func bin(v uint64, n int) string {
	if n == 0 {
		return ""
	}
	s := fmt.Sprintf("%b", v)
	if len(s) > n {
		panic(fmt.Sprintf("%d does not fit in %d bits", v, n))
	}
	return strings.Repeat("0", n-len(s)) + s
}

func pow10(n int) uint64 {
	p := uint64(1)
	for i := 0; i < n; i++ {
		p *= 10
	}
	return p
}

// tagBits encodes a tag of the scheme.
func (s *epcScheme) tagBits(filter, partition int, cp, ref, ser uint64) string {
	b := bin(uint64(s.header), 8) + bin(uint64(filter), 3) + bin(uint64(partition), 3) +
		bin(cp, cpBits[partition]) + bin(ref, s.refBits[partition])
	if s.serial {
		b += bin(ser, 38)
	}
	return b + strings.Repeat("0", s.pad)
}

func digits(v uint64, n int) string {
	s := fmt.Sprintf("%d", v)
	if len(s) < n {
		s = strings.Repeat("0", n-len(s)) + s
	}
	return s
}

// identity is the pure identity of the tag.
func (s *epcScheme) identity(partition int, cp, ref, ser uint64) string {
	u := "urn:epc:id:" + s.urn + ":" + digits(cp, 12-partition)
	dig := s.refDig[partition]
	if s.urn == "giai" {
		// an individual asset reference has no leading zeros to restore
		u += "." + fmt.Sprint(ref)
	} else if dig > 0 {
		u += "." + digits(ref, dig)
	}
	if s.serial {
		u += "." + fmt.Sprint(ser)
	}
	return u
}

// toBytes packs a bit string (length a multiple of 8).
func toBytes(bits string) []byte {
	if len(bits)%8 != 0 {
		panic("not whole bytes")
	}
	out := make([]byte, len(bits)/8)
	for i, r := range bits {
		if r == '1' {
			out[i/8] |= 1 << uint(7-i%8)
		}
	}
	return out
}

func toBits(id []byte) string {
	var sb strings.Builder
	for _, b := range id {
		fmt.Fprintf(&sb, "%08b", b)
	}
	return sb.String()
}

func field(bits string, off, n int) *big.Int {
	z := new(big.Int)
	if n > 0 {
		z.SetString(bits[off:off+n], 2)
	}
	return z
}

// six encodes characters 0x20..0x5f in six bits.
func six(s string) string {
	var sb strings.Builder
	for _, r := range s {
		sb.WriteString(bin(uint64(r)&63, 6))
	}
	return sb.String()
}

// isoBits encodes the characters padded to whole 16-bit words (ISO 15962).
func isoBits(chars string) string {
	b := six(chars)
	for i := 0; len(b)%16 != 0; i++ {
		b += string("100000"[i%6])
	}
	return b
}

// unsix decodes six-bit characters, dropping spaces and an incomplete tail.
func unsix(bits string) string {
	out := ""
	for i := 0; i+6 <= len(bits); i += 6 {
		v := field(bits, i, 6).Int64()
		if v < 32 {
			v += 64
		}
		if v != 32 {
			out += string(rune(v))
		}
	}
	return out
}

// checkDigit6346 is the ISO 6346 check digit of owner code, equipment category
// and six digit serial number.
func checkDigit6346(code string) int {
	// letters start at 10 and skip the multiples of 11
	val := map[rune]int{}
	n := 10
	for r := 'A'; r <= 'Z'; r++ {
		if n%11 == 0 {
			n++
		}
		val[r] = n
		n++
	}
	for r := '0'; r <= '9'; r++ {
		val[r] = int(r - '0')
	}
	sum := 0
	for i, r := range code {
		sum += val[r] << uint(i)
	}
	return sum % 11 % 10
}

// refTag is a tag of the reference model.
type refTag struct {
	bits     string
	pc       [2]byte
	identity string
}

func (t *refTag) id() []byte { return toBytes(t.bits) }

func epcTag(scheme string, filter, partition int, cp, ref, ser uint64) *refTag {
	s := schemeByName(scheme)
	b := s.tagBits(filter, partition, cp, ref, ser)
	return &refTag{bits: b, pc: [2]byte{byte(len(b) / 16 << 3), 0}, identity: s.identity(partition, cp, ref, ser)}
}

func isoTag(std string, chars string) *refTag {
	b := isoBits(chars)
	afi := byte(0xA9)
	if std == "17365" {
		afi = 0xA2
	}
	return &refTag{bits: b, pc: [2]byte{byte(len(b)/16<<3) | 1, afi}, identity: "urn:epc:id:iso" + std + ":" + unsix(b)}
}

// refPattern returns the bit prefix a well-formed pattern stands for.
func refPattern(pat string) (string, error) {
	p := strings.Split(strings.TrimPrefix(pat, "urn:epc:pat:"), ":")
	if len(p) != 2 {
		return "", fmt.Errorf("parts")
	}
	f := strings.Split(strings.ToUpper(p[1]), ".")
	if p[0] == "iso17363" || p[0] == "iso17365" {
		if len(f) > 4 {
			return "", fmt.Errorf("fields")
		}
		for _, x := range f {
			if x == "" {
				return "", fmt.Errorf("empty field")
			}
			for _, r := range x {
				if r < 0x20 || r > 0x5f {
					return "", fmt.Errorf("character")
				}
			}
		}
		if p[0] == "iso17363" && len(f) == 4 {
			if len(f[3]) > 6 {
				return "", fmt.Errorf("csn")
			}
			f[3] = strings.Repeat("0", 6-len(f[3])) + f[3]
			code := f[1] + f[2] + f[3]
			if len(code) != 10 {
				return "", fmt.Errorf("code length")
			}
			f[3] += fmt.Sprint(checkDigit6346(code))
		}
		return six(strings.Join(f, "")), nil
	}
	s := schemeByName(p[0])
	if s == nil {
		return "", fmt.Errorf("scheme")
	}
	max := 3
	if s.serial {
		max = 4
	}
	if len(f) > max {
		return "", fmt.Errorf("fields")
	}
	var v []uint64
	for _, x := range f {
		if x == "" || len(x) > 19 {
			return "", fmt.Errorf("field")
		}
		n := uint64(0)
		for _, r := range x {
			if r < '0' || r > '9' {
				return "", fmt.Errorf("digit")
			}
			n = n*10 + uint64(r-'0')
		}
		v = append(v, n)
	}
	if v[0] > 7 {
		return "", fmt.Errorf("filter")
	}
	b := bin(uint64(s.header), 8) + bin(v[0], 3)
	if len(f) == 1 {
		return b, nil
	}
	part := 12 - len(f[1])
	if part < 0 || part > 6 {
		return "", fmt.Errorf("company prefix")
	}
	b += bin(uint64(part), 3) + bin(v[1], cpBits[part])
	if len(f) == 2 {
		return b, nil
	}
	if len(f[2]) > s.refDig[part] && len(f[2]) > 1 {
		return "", fmt.Errorf("reference")
	}
	rb := fmt.Sprintf("%b", v[2])
	if len(rb) < s.refBits[part] {
		rb = strings.Repeat("0", s.refBits[part]-len(rb)) + rb
	}
	b += rb
	if len(f) == 3 {
		return b, nil
	}
	if v[3] >= 1<<38 {
		return "", fmt.Errorf("serial")
	}
	return b + bin(v[3], 38), nil
}
