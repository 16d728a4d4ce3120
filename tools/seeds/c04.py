ID='c04-translation-memo'; PROPERTY='C04'
NEEDS='two successive tags with the same ID bytes and different protocol control bits'
BREAKS='the translation of the previous tag is reused although the PC bits differ, so what a search reports depends on the search before it'
EDITS=[('tdt/core.go','''		return c.buildUII(id, pc[1])
''','''		if c.lastID != string(id) || c.lastURN == "" {
			urn, err := c.buildUII(id, pc[1])
			if err != nil {
				return "", err
			}
			c.lastID, c.lastURN = string(id), urn
		}
		return c.lastURN, nil
'''),
 ('tdt/core.go','type Core struct {\n','type Core struct {\n\tlastID, lastURN string\n')]
DEMO_PKG='filtering'
DEMO='''package filtering
import ("testing";"github.com/iomz/go-llrp";"github.com/iomz/gosstrak/scheme")
func TestDemo(t *testing.T) {
	id, _, _, _, err := scheme.MakeISO17365(false, "25S", "UN", "ABC", "0THANK0YOU0FOR0READING0THIS1")
	if err != nil { t.Fatal(err) }
	e := NewList(Subscriptions{"http://a": {"urn:epc:pat:iso17365:25S.UN.ABC"}})
	e.Search(llrp.ReadEvent{PC: []byte{0x59, 0xa3}, ID: id})
	got, _, _ := e.Search(llrp.ReadEvent{PC: []byte{0x59, 0xa2}, ID: id})
	fresh, _, _ := NewList(Subscriptions{"http://a": {"urn:epc:pat:iso17365:25S.UN.ABC"}}).Search(llrp.ReadEvent{PC: []byte{0x59, 0xa2}, ID: id})
	if got != fresh { t.Fatal(got, fresh) }
}
'''
