ID='c10-pc-length'; PROPERTY='C10'
NEEDS='PC bits that are not two bytes long'
BREAKS='a tag with one PC byte whose toggle says ISO crashes the translation instead of being reported as invalid'
EDITS=[('tdt/core.go','''	if len(pc) != 2 {
		return "", errors.New("Invalid PC bits")
	}
''','''	if len(pc) == 0 {
		return "", errors.New("Invalid PC bits")
	}
''')]
DEMO_PKG='tdt'
DEMO='''package tdt
import "testing"
func TestDemo(t *testing.T) {
	for _, pc := range [][]byte{nil, {0x30}, {0x31}, {0x30, 0, 0}} {
		if s, err := NewCore().Translate(pc, make([]byte, 12)); err == nil { t.Fatal(pc, s) }
	}
}
'''
