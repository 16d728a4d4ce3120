ID='c06-asset-trailing-zeros'; PROPERTY='C06'
NEEDS='a text pattern for assets whose reference ends in zero'
BREAKS='the pattern matches the tag with the zeros cut off instead of the one it names'
EDITS=[('filtering/legacy_engine.go','''				pattern = "giai:" + strings.Join(fields[1:], ".")''','''				pattern = "giai:" + strings.Join(fields[1:len(fields):len(fields)], ".")
				if len(fields) == 3 && len(fields[2]) > 1 {
					pattern = "giai:" + fields[1] + "." + strings.TrimRight(fields[2], "0")
				}''')]
DEMO_PKG='filtering'
DEMO='''package filtering
import ("testing";"github.com/iomz/go-llrp";"github.com/iomz/gosstrak/scheme")
func TestDemo(t *testing.T) {
	e := NewLegacyEngine(Subscriptions{"http://a": {"urn:epc:pat:giai-96:3.12345678901.50"}})
	id, _, _, _ := scheme.MakeGIAI96(false, "3", "12345678901", "50")
	if _, uris, err := e.Search(llrp.ReadEvent{PC: []byte{0x30, 0}, ID: id}); len(uris) != 1 { t.Fatal(uris, err) }
}
'''
