ID='c24-announcement-times-out'; PROPERTY='C24'
NEEDS='the factory not receiving for a whole statistics interval while an engine becomes ready'
BREAKS='the engine generator gives up announcing that its engine is ready'
EDITS=[('filtering/engine_generator.go','''	eg.managementChannel <- ManagementMessage{
		Type:                    OnEngineGenerated,
		EngineGeneratorInstance: eg,
	}''','''	select {
	case eg.managementChannel <- ManagementMessage{
		Type:                    OnEngineGenerated,
		EngineGeneratorInstance: eg,
	}:
	case <-time.After(time.Duration(eg.statInterval) * time.Second):
	}''')]
DEMO_PKG='filtering'
DEMO='''package filtering
import ("testing";"time";"context")
func TestDemo(t *testing.T) {
	mc := make(chan ManagementMessage)
	eg := NewEngineGenerator("List", NewList, 1, mc)
	eg.FSM.Event(context.Background(), "init", Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3"}})
	time.Sleep(2500 * time.Millisecond)
	deadline := time.After(4 * time.Second)
	for {
		select {
		case m := <-mc:
			if m.Type == OnEngineGenerated { return }
		case <-deadline:
			t.Fatal("never announced")
		}
	}
}
'''
