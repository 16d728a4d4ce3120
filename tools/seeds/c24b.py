ID='c24-init-twice'; PROPERTY='C24'
NEEDS='an init command given to a generator that has been ready before'
BREAKS='a ready generator accepts init again, throws its engine away and announces another'
EDITS=[('filtering/engine_generator.go','''{Name: "init", Src: []string{"unavailable"}, Dst: "generating"},''','''{Name: "init", Src: []string{"unavailable", "rebuilding", "pending", "ready"}, Dst: "generating"},''')]
DEMO_PKG='filtering'
DEMO='''package filtering
import ("testing";"context";"time")
func TestDemo(t *testing.T) {
	mc := make(chan ManagementMessage, 100)
	eg := NewEngineGenerator("List", NewList, 60, mc)
	sub := Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3"}}
	eg.FSM.Event(context.Background(), "init", sub)
	for i := 0; i < 100 && !eg.FSM.Is("ready"); i++ { time.Sleep(10 * time.Millisecond) }
	if err := eg.FSM.Event(context.Background(), "init", Subscriptions{}); err == nil { t.Fatal("a ready generator accepts init") }
}
'''
