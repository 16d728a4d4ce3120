ID='c03-zero-child-merge'; PROPERTY='C03'
NEEDS='deleting a subscription whose node has only a zero child that itself has both children'
BREAKS='PatriciaTrie loses the ones branch below the merged child'
EDITS=[('filtering/patricia_trie.go','''			ptn.one = ptn.zero.one
			ptn.zero = ptn.zero.zero
''','''			if ptn.one = ptn.zero.one; ptn.zero.zero != nil {
				ptn.one = nil
			}
			ptn.zero = ptn.zero.zero
''')]
DEMO_PKG='filtering'
DEMO='''package filtering
import ("testing";"github.com/iomz/go-llrp";"github.com/iomz/gosstrak/scheme")
func TestDemo(t *testing.T) {
	e := NewPatriciaTrie(Subscriptions{
		"http://a": {"urn:epc:pat:sgtin-96:3"},
		"http://o": {"urn:epc:pat:giai-96:3"},
		"http://c": {"urn:epc:pat:sgtin-96:3.123456789012"},
		"http://d": {"urn:epc:pat:sgtin-96:3.12345678901"},
	})
	e.DeleteSubscription(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3"}})
	for i, cp := range []string{"123456789012", "12345678901"} {
		id, _, _, _ := scheme.MakeSGTIN96(false, "3", cp, "1", "5")
		_, uris, err := e.Search(llrp.ReadEvent{PC: []byte{0x30, 0}, ID: id})
		if err != nil || len(uris) != 1 { t.Fatal(i, uris, err) }
	}
}
'''
