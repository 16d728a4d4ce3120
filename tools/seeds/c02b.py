ID='c02-crowded-subset'; PROPERTY='C02'
NEEDS='a subscription with more than eight direct subsets, one of which has subsets of its own'
BREAKS='the splay tree no longer nests the subsets of a crowded subscription and misses the narrower ones'
EDITS=[('filtering/subscriptions.go','''				bsub[linkCandidate].Subset.linkSubset()
''','''				if len(bsub[linkCandidate].Subset) <= 8 {
					bsub[linkCandidate].Subset.linkSubset()
				}
''')]
DEMO_PKG='filtering'
DEMO='''package filtering
import ("testing";"fmt";"github.com/iomz/go-llrp";"github.com/iomz/gosstrak/scheme")
func TestDemo(t *testing.T) {
	sub := Subscriptions{"http://all": {"urn:epc:pat:iso17365:25S"}}
	for i := 0; i < 12; i++ { sub[fmt.Sprintf("http://%d", i)] = []string{"urn:epc:pat:iso17365:25S." + string(rune('A'+i))} }
	sub["http://deep"] = []string{"urn:epc:pat:iso17365:25S.LM"}
	id, _, _, _, err := scheme.MakeISO17365(false, "25S", "LM", "ABC", "1")
	if err != nil { t.Fatal(err) }
	_, uris, err := NewSplayTree(sub).Search(llrp.ReadEvent{PC: []byte{0x31, 0xa2}, ID: id})
	if err != nil || len(uris) != 3 { t.Fatal(uris, err) }
}
'''
