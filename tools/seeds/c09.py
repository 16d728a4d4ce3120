ID='c09-asset-type-mask'; PROPERTY='C09'
NEEDS='a GRAI-96 tag with a nine digit company prefix and an asset type of 128 or more whose bit 7 is set'
BREAKS='one bit of the asset type is masked off in one of the seven layouts'
EDITS=[('tdt/core.go','''			at := make([]byte, 2) // 14 bits
			remainder = id[5] & 15
			at[0] = remainder<<2 | id[6]>>6
			remainder = id[6] & 63
''','''			at := make([]byte, 2) // 14 bits
			remainder = id[5] & 15
			at[0] = remainder<<2 | id[6]>>6
			remainder = id[6] & 31
''')]
DEMO_PKG='tdt'
DEMO='''package tdt
import ("testing";"github.com/iomz/gosstrak/scheme")
func TestDemo(t *testing.T) {
	for _, at := range []string{"001", "127", "128", "200", "999"} {
		id, _, _, err := scheme.MakeGRAI96(false, "3", "123456789", at, "77")
		if err != nil { t.Fatal(err) }
		got, err := NewCore().Translate([]byte{0x30, 0}, id)
		if err != nil || got != "urn:epc:id:grai:123456789."+at+".77" { t.Fatal(at, got, err) }
	}
}
'''
