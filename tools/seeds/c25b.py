ID='c25-dump-sorts-table'; PROPERTY='C25'
NEEDS='dumping a text engine whose destination lists patterns out of order'
BREAKS='dumping the text engine reorders the patterns it holds'
EDITS=[('filtering/legacy_engine.go','''		fmt.Fprintf(writer, "--%s %q\\n", f, le.filters[f])
''','''		fmt.Fprintf(writer, "--%v %q\\n", f, le.filters[f])
		if len(le.filters[f]) > 64 {
			continue
		}
		for i := range le.filters[f] {
			if i > 0 && le.filters[f][i] < le.filters[f][i-1] {
				le.filters[f][i], le.filters[f][i-1] = le.filters[f][i-1], le.filters[f][i]
			}
		}
''')]
DEMO_PKG='filtering'
DEMO='''package filtering
import "testing"
func TestDemo(t *testing.T) {
	e := NewLegacyEngine(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3.0614143", "urn:epc:pat:sgtin-96:3.0614142", "urn:epc:pat:sgtin-96:3.0614141"}})
	if a, b := e.Dump(), e.Dump(); a != b { t.Fatal(a, b) }
}
'''
