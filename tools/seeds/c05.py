ID='c05-aggregation-node'; PROPERTY='C05'
NEEDS='a saved SplayTree in which a deleted pattern stays as an aggregation node above two narrower ones'
BREAKS='the subscriptions below an aggregation node are not saved'
EDITS=[('filtering/splay_tree.go','''	hasMatchNext := stn.matchNext != nil
''','''	hasMatchNext := stn.reportURI != "" && stn.matchNext != nil
''')]
DEMO_PKG='filtering'
DEMO='''package filtering
import ("testing";"github.com/iomz/go-llrp";"github.com/iomz/gosstrak/scheme")
func TestDemo(t *testing.T) {
	e := NewSplayTree(Subscriptions{
		"http://a": {"urn:epc:pat:sgtin-96:3"},
		"http://c": {"urn:epc:pat:sgtin-96:3.123456789012"},
		"http://d": {"urn:epc:pat:sgtin-96:3.12345678901"},
	})
	e.DeleteSubscription(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3"}})
	b, err := e.MarshalBinary()
	if err != nil { t.Fatal(err) }
	r := &SplayTree{}
	if err := r.UnmarshalBinary(b); err != nil { t.Fatal(err) }
	for i, cp := range []string{"123456789012", "12345678901"} {
		id, _, _, _ := scheme.MakeSGTIN96(false, "3", cp, "1", "5")
		_, uris, err := r.Search(llrp.ReadEvent{PC: []byte{0x30, 0}, ID: id})
		if err != nil || len(uris) != 1 { t.Fatal(i, uris, err) }
	}
}
'''
