ID='c18-stale-probability'; PROPERTY='C18'
NEEDS='a traffic message with events followed by one without any'
BREAKS='the fields map outlives its message, so a point carries the probability and counters of an earlier message'
EDITS=[('monitoring/stat_manager.go','''		for {
			msg, ok := <-smc
			if !ok {
				break
			}

			tags := make(map[string]string)
			fields := make(map[string]interface{})
			var measurement string
''','''		fields := make(map[string]interface{})
		for {
			msg, ok := <-smc
			if !ok {
				break
			}

			tags := make(map[string]string)
			if msg.Type != Traffic {
				fields = make(map[string]interface{})
			}
			var measurement string
''')]
DEMO_PKG='monitoring'
DEMO='''package monitoring
import ("testing";"io";"net/http";"net/http/httptest";"strings";"time")
func TestDemo(t *testing.T) {
	got := make(chan string, 9)
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body); got <- string(b); w.WriteHeader(204)
	}))
	defer s.Close()
	sm := NewStatManager("m", s.URL, "u", "p", "d")
	sm.StatMessageChannel <- StatMessage{Type: Traffic, Name: "List", Value: []interface{}{int64(4), int64(2)}}
	sm.StatMessageChannel <- StatMessage{Type: Traffic, Name: "List", Value: []interface{}{int64(0), int64(0)}}
	for i := 0; i < 2; i++ {
		select {
		case l := <-got:
			if strings.Contains(l, "probability") != (i == 0) { t.Fatal(i, l) }
		case <-time.After(10 * time.Second):
			t.Fatal("no write")
		}
	}
}
'''
