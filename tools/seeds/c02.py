ID='c02-nested-offset'; PROPERTY='C02'
NEEDS='three levels of nested patterns where a nested pattern has two narrower ones'
BREAKS='the second subset of a filter that is itself nested gets an offset relative to its parent, so the SplayTree compares the wrong bits'
EDITS=[('filtering/subscriptions.go','''				} else {
					bsub[linkCandidate].Subset[fs[len(linkCandidate):]] = &PartialSubscription{
						Offset:    psub.Offset + len(linkCandidate),''','''				} else {
					bsub[linkCandidate].Subset[fs[len(linkCandidate):]] = &PartialSubscription{
						Offset:    len(linkCandidate),''')]
DEMO_PKG='filtering'
DEMO='''package filtering
import ("testing";"github.com/iomz/go-llrp";"github.com/iomz/gosstrak/scheme")
func TestDemo(t *testing.T) {
	e := NewSplayTree(Subscriptions{
		"http://a": {"urn:epc:pat:sgtin-96:3"},
		"http://b": {"urn:epc:pat:sgtin-96:3.1234567"},
		"http://c": {"urn:epc:pat:sgtin-96:3.1234567.000001"},
		"http://d": {"urn:epc:pat:sgtin-96:3.1234567.000002"},
	})
	for i, ir := range []string{"000001", "000002"} {
		id, _, _, _ := scheme.MakeSGTIN96(false, "3", "1234567", ir, "5")
		_, uris, err := e.Search(llrp.ReadEvent{PC: []byte{0x30, 0}, ID: id})
		if err != nil || len(uris) != 3 { t.Fatal(i, uris, err) }
	}
}
'''
