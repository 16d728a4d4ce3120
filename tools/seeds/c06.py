ID='c06-iso-dots'; PROPERTY='C06'
NEEDS='an ISO 17365 pattern with all four fields in the text-matching engine'
BREAKS='only the first two field separators of the pattern are removed before comparing'
EDITS=[('filtering/legacy_engine.go','''			case "iso17365":
				pattern = patternType + ":" + strings.Replace(pattern, ".", "", -1)''','''			case "iso17365":
				pattern = patternType + ":" + strings.Replace(pattern, ".", "", 2)''')]
DEMO_PKG='filtering'
DEMO='''package filtering
import ("testing";"github.com/iomz/go-llrp";"github.com/iomz/gosstrak/scheme")
func TestDemo(t *testing.T) {
	id, _, _, _, err := scheme.MakeISO17365(false, "25S", "UN", "ABC", "0THANK0YOU0FOR0READING0THIS1")
	if err != nil { t.Fatal(err) }
	e := NewLegacyEngine(Subscriptions{"http://a": {"urn:epc:pat:iso17365:25S.UN.ABC.0THANK0YOU"}})
	_, uris, err := e.Search(llrp.ReadEvent{PC: []byte{0x59, 0xa2}, ID: id})
	if err != nil || len(uris) != 1 { t.Fatal(uris, err) }
}
'''
