ID='c25-indent-capped'; PROPERTY='C25'
NEEDS='a subscription table nested more than 32 levels deep'
BREAKS='the dump of a splay tree no longer tells where deeply nested nodes belong'
EDITS=[('filtering/splay_tree.go','''		fmt.Fprintf(writer, "%sok", strings.Repeat(" ", indent+2))
		stn.matchNext.print(writer, indent+2)''','''		if indent < 64 {
			indent += 2
		}
		fmt.Fprintf(writer, "%sok", strings.Repeat(" ", indent))
		stn.matchNext.print(writer, indent)
		indent -= 2''')]
DEMO_PKG='filtering'
DEMO='''package filtering
import ("testing";"strings";"fmt")
func TestDemo(t *testing.T) {
	sub := Subscriptions{}
	s := "A"
	for i := 0; i < 40; i++ { sub[fmt.Sprintf("http://d%d", i)] = []string{"urn:epc:pat:iso17365:" + s}; s += "A" }
	lines := strings.Split(strings.TrimSpace(NewSplayTree(sub).Dump()), "\\n")
	last := lines[len(lines)-1]
	if n := len(last) - len(strings.TrimLeft(last, " ")); n != 2*(len(lines)-1) { t.Fatal(n, len(lines)) }
}
'''
