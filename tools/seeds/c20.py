ID='c20-xor-cancels'; PROPERTY='C20'
NEEDS='a composition of three filters of which the second and the third differ from the first in the same bit'
BREAKS='the differences cancel out and the bit is taken for a common one, so the composite filter misses the first filter'
EDITS=[('filtering/composition.go','''			xmask[i] |= xm''','''			xmask[i] ^= xm''')]
DEMO_PKG='filtering'
DEMO='''package filtering
import "testing"
func TestDemo(t *testing.T) {
	fs := []*FilterObject{NewFilter("00110000", 0), NewFilter("00110001", 0), NewFilter("00110011", 0)}
	c := NewComposition(fs)
	cf := NewFilter(c.filter, c.offset)
	for _, b := range []byte{0x30, 0x31, 0x33} {
		if !cf.Match([]byte{b}) { t.Fatal(b, c.filter) }
	}
}
'''
