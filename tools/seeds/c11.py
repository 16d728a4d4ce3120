ID='c11-skip-rest'; PROPERTY='C11'
NEEDS='a destination with a malformed pattern followed by a valid one'
BREAKS='the patterns after a malformed one of the same destination are dropped'
EDITS=[('filtering/subscriptions.go','''			if len(tf) != 2 { // should only containts a type and fields
				continue
			}''','''			if len(tf) != 2 { // should only containts a type and fields
				break
			}''')]
DEMO_PKG='filtering'
DEMO='''package filtering
import "testing"
func TestDemo(t *testing.T) {
	b := Subscriptions{"http://a": {"urn:epc:pat:sgtin-96", "urn:epc:pat:sgtin-96:3"}}.ToByteSubscriptions()
	if len(b) != 1 { t.Fatal(b.Keys()) }
}
'''
