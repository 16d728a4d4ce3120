ID='c13-clone-shares'; PROPERTY='C13'
NEEDS='a text-matching engine from which a pattern is deleted while the caller still holds the subscriptions'
BREAKS='the clone shares the slices with the original, so deleting shifts the elements of the caller'
EDITS=[('filtering/subscriptions.go','''		clone[f] = []string{}
		for _, dest := range sub[f] {
			clone[f] = append(clone[f], dest)
		}
''','''		clone[f] = append(sub[f][:0:len(sub[f])], sub[f]...)
''')]
DEMO_PKG='filtering'
DEMO='''package filtering
import "testing"
func TestDemo(t *testing.T) {
	s := Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3", "urn:epc:pat:sgtin-96:4"}}
	e := NewLegacyEngine(s)
	e.DeleteSubscription(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3"}})
	if s["http://a"][0] != "urn:epc:pat:sgtin-96:3" { t.Fatal(s) }
}
'''
