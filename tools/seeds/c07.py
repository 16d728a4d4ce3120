ID='c07-asset-type-zero-padding'; PROPERTY='C07'
NEEDS='a GRAI-96 pattern with an asset type and a company prefix of nine digits'
BREAKS='the asset type is encoded in 13 bits instead of 14 for one partition'
EDITS=[('tdt/epc.go','''	9:  {PValue: 3, CPBits: 30, ATBits: 14, ATDigits: 3},''','''	9:  {PValue: 3, CPBits: 30, ATBits: 13, ATDigits: 3},''')]
DEMO_PKG='tdt'
DEMO='''package tdt
import "testing"
func TestDemo(t *testing.T) {
	s, err := NewPrefixFilterGRAI96([]string{"3", "123456789", "123"})
	if err != nil || len(s) != 8+3+3+44 { t.Fatal(len(s), err) }
}
'''
