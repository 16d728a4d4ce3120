ID='c18-no-probability-of-zero'; PROPERTY='C18'
NEEDS='a traffic statistic with events none of which matched'
BREAKS='the matching probability of zero is not written'
EDITS=[('monitoring/stat_manager.go','				if ingress != 0 {','				if matches != 0 {')]
DEMO_PKG='monitoring'
DEMO='''package monitoring
import ("testing";"net/http";"net/http/httptest";"io";"strings";"time")
func TestDemo(t *testing.T) {
	got := make(chan string, 1)
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body); got <- string(b); w.WriteHeader(204)
	}))
	sm := NewStatManager("", s.URL, "", "", "db")
	sm.StatMessageChannel <- StatMessage{Type: Traffic, Name: "List", Value: []interface{}{int64(5), int64(0)}}
	select {
	case b := <-got:
		if !strings.Contains(b, "matching_probability=0") { t.Fatal(b) }
	case <-time.After(5 * time.Second):
		t.Fatal("nothing written")
	}
}
'''
