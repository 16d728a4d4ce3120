ID='c20-crowd-not-masked'; PROPERTY='C20'
NEEDS='a composition of more than eight filters that differ'
BREAKS='the bits the members of a large composition differ in are not masked, so the composite rejects members'
EDITS=[('filtering/composition.go','''		for i := 0; i < tail-head; i++ {
			xm :=''','''		for i := 0; i < tail-head && len(filters) < 9; i++ {
			xm :=''')]
DEMO_PKG='filtering'
DEMO='''package filtering
import "testing"
func TestDemo(t *testing.T) {
	var fs []*FilterObject
	for _, s := range []string{"00000000","00000001","00000010","00000011","00000100","00000101","00000110","00000111","00001000"} { fs = append(fs, NewFilter(s, 0)) }
	c := NewComposition(fs)
	if !NewFilter(c.filter, c.offset).Match([]byte{0}) { t.Fatal(c.filter) }
}
'''
