ID='c12-repeated-destination'; PROPERTY='C12'
NEEDS='a subscription file in which one destination appears on two lines'
BREAKS='the patterns of the earlier line are lost'
EDITS=[('filtering/subscriptions.go','''				if _, ok := sub[reportURI]; !ok {
					sub[reportURI] = []string{}
				}
''','''				if i == 1 {
					sub[reportURI] = []string{}
				}
''')]
DEMO_PKG='filtering'
DEMO='''package filtering
import ("testing";"os";"path/filepath")
func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "a.csv")
	os.WriteFile(f, []byte("http://a,urn:epc:pat:sgtin-96:3\\nhttp://b,urn:epc:pat:sgtin-96:2\\nhttp://a,urn:epc:pat:sgtin-96:4\\n"), 0600)
	s := LoadSubscriptionsFromCSVFile(f)
	if len(s["http://a"]) != 2 { t.Fatal(s) }
}
'''
