package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/iomz/gosstrak/monitoring"
)

func init() {
	checks["C18"] = check{
		level: "exploration",
		rule: "every sequence of length 0..2 (thorough 3) over an alphabet of statistics messages (traffic with zero, equal, larger and extreme counts, several engines incl. names that need escaping; throughput; selection; malformed traffic of every wrong-type combination), each with a statistics manager of its own writing to a local database server; and one manager fed a de Bruijn sequence that contains every window of length 4 (thorough 5). Every request the server receives is parsed and compared, in order, with what the messages call for. " +
			"Non-trivial: distinct sequences.",
		run: runC18,
	}
	workers["C18"] = workerC18
}

type statCase struct {
	msg  monitoring.StatMessage
	want string // measurement, tags and fields, "" if malformed
}

func statAlphabet() []statCase {
	tr := func(name string, in, m any) monitoring.StatMessage {
		return monitoring.StatMessage{Type: monitoring.Traffic, Name: name, Value: []interface{}{in, m}}
	}
	want := func(name string, in, m int64) string {
		s := fmt.Sprintf("traffic|engine=%s|incoming_events=%di|matched_events=%di", name, in, m)
		if in != 0 {
			s += "|matching_probability=" + ftoa(float64(m)/float64(in)*100)
		}
		return s
	}
	out := []statCase{}
	good := func(name string, in, m int64) { out = append(out, statCase{tr(name, in, m), want(name, in, m)}) }
	good("PatriciaTrie", 10, 3)
	good("PatriciaTrie", 0, 0)
	good("SplayTree", 7, 7)
	good("LegacyEngine", 9, 0)
	good("List", 1<<40+1, 1<<25+1)
	good("odd name,=x", math.MaxInt64, 1)
	out = append(out, statCase{tr("List", "10", int64(3)), ""}, statCase{tr("List", int64(10), "3"), ""}, statCase{tr("List", 10, int64(3)), ""},
		statCase{tr("List", int64(10), 3.0), ""}, statCase{tr("List", nil, nil), ""})
	for _, f := range []float64{0.5, 1e-9} {
		out = append(out, statCase{monitoring.StatMessage{Type: monitoring.EngineThroughput, Name: "List", Value: []interface{}{f}}, "throughput|engine=List|event_per_us=" + ftoa(f)})
	}
	for i, n := range []string{"LegacyEngine", "List", "PatriciaTrie", "SplayTree"} {
		out = append(out, statCase{monitoring.StatMessage{Type: monitoring.SelectedEngine, Name: n, Value: []interface{}{}}, fmt.Sprintf("engine||selected=%di", i)})
	}
	return out
}

func ftoa(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

// parseLine normalises one line of the line protocol.
func parseLine(l string) (string, error) {
	split := func(s string, sep byte) []string {
		var out []string
		cur := ""
		quoted := false
		for i := 0; i < len(s); i++ {
			switch {
			case s[i] == '\\' && i+1 < len(s):
				cur += s[i : i+2]
				i++
			case s[i] == '"':
				quoted = !quoted
				cur += "\""
			case s[i] == sep && !quoted:
				out = append(out, cur)
				cur = ""
			default:
				cur += string(s[i])
			}
		}
		return append(out, cur)
	}
	un := func(s string) string {
		return strings.NewReplacer(`\,`, ",", `\=`, "=", `\ `, " ").Replace(s)
	}
	p := split(strings.TrimRight(l, "\n"), ' ')
	if len(p) != 3 {
		return "", fmt.Errorf("%d parts", len(p))
	}
	ts, err := strconv.ParseInt(p[2], 10, 64)
	if err != nil || time.Since(time.Unix(0, ts)).Abs() > time.Hour {
		return "", fmt.Errorf("timestamp %s", p[2])
	}
	head := split(p[0], ',')
	var tags []string
	for _, t := range head[1:] {
		tags = append(tags, un(t))
	}
	fields := map[string]string{}
	for _, f := range split(p[1], ',') {
		kv := split(f, '=')
		if len(kv) != 2 {
			return "", fmt.Errorf("field %q", f)
		}
		v := kv[1]
		if x, err := strconv.ParseFloat(v, 64); err == nil {
			v = ftoa(x)
		}
		if _, dup := fields[kv[0]]; dup {
			return "", fmt.Errorf("field %q repeated", f)
		}
		fields[kv[0]] = v
	}
	out := un(head[0]) + "|" + strings.Join(tags, ",")
	for _, k := range []string{"incoming_events", "matched_events", "matching_probability", "event_per_us", "selected"} {
		if v, ok := fields[k]; ok {
			out += "|" + k + "=" + v
			delete(fields, k)
		}
	}
	for k := range fields {
		return "", fmt.Errorf("unexpected field %q", k)
	}
	return out, nil
}

type statServer struct {
	mu     sync.Mutex
	bodies map[string][]string // by database
	addr   string
}

func newStatServer() *statServer {
	s := &statServer{bodies: map[string][]string{}}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s.addr = "http://" + l.Addr().String()
	go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		s.mu.Lock()
		db := r.URL.Query().Get("db")
		if r.URL.Path == "/write" {
			p := r.URL.Query().Get("precision")
			if p != "" && p != "ns" && p != "n" {
				b = []byte("precision " + p)
			}
			s.bodies[db] = append(s.bodies[db], string(b))
		}
		s.mu.Unlock()
		w.WriteHeader(http.StatusNoContent)
	}))
	return s
}

func (s *statServer) take(db string) []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string{}, s.bodies[db]...)
}

// c18Run feeds one sequence to a fresh manager; "" if all is well.
func (s *statServer) run(db string, seq []statCase) string {
	sm := monitoring.NewStatManager("", s.addr, "", "", db)
	marker := monitoring.StatMessage{Type: monitoring.EngineThroughput, Name: "marker", Value: []interface{}{1.5}}
	send := func(m monitoring.StatMessage) bool {
		select {
		case sm.StatMessageChannel <- m:
			return true
		case <-time.After(20 * time.Second):
			return false
		}
	}
	var want []string
	for i, m := range seq {
		if !send(m.msg) {
			return fmt.Sprintf("message %d is not taken", i)
		}
		if m.want != "" {
			want = append(want, m.want)
		}
	}
	want = append(want, "throughput|engine=marker|event_per_us=1.5")
	if !send(marker) {
		return "the manager stopped taking messages"
	}
	deadline := time.Now().Add(20 * time.Second)
	var got []string
	for {
		got = s.take(db)
		if len(got) > 0 && strings.Contains(got[len(got)-1], "marker") || time.Now().After(deadline) {
			break
		}
		time.Sleep(50 * time.Microsecond)
	}
	for i, b := range got {
		if i >= len(want) {
			return fmt.Sprintf("write %d is one too many: %q", i, b)
		}
		ls := strings.Split(strings.TrimRight(b, "\n"), "\n")
		if len(ls) != 1 {
			return fmt.Sprintf("write %d carries %d points: %q", i, len(ls), clip(b, 300))
		}
		l, err := parseLine(ls[0])
		if err != nil {
			return fmt.Sprintf("write %d, %q: %v", i, b, err)
		}
		if l != want[i] {
			return fmt.Sprintf("write %d is %q, want %q", i, l, want[i])
		}
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%d writes, want %d", len(got), len(want))
	}
	s.mu.Lock()
	delete(s.bodies, db)
	s.mu.Unlock()
	return ""
}

// deBruijn returns a cyclic sequence containing every word of length n over k symbols.
func deBruijn(k, n int) []int {
	a := make([]int, k*n)
	var seq []int
	var db func(t, p int)
	db = func(t, p int) {
		if t > n {
			if n%p == 0 {
				seq = append(seq, a[1:p+1]...)
			}
			return
		}
		a[t] = a[t-p]
		db(t+1, p)
		for j := a[t-p] + 1; j < k; j++ {
			a[t] = j
			db(t+1, t)
		}
	}
	db(1, 1)
	return append(seq, seq[:n-1]...)
}

func c18Sequences(thorough bool) [][]int {
	k := len(statAlphabet())
	var out [][]int
	max := 2
	if thorough {
		max = 3
	}
	cur := [][]int{{}}
	for l := 0; l <= max; l++ {
		out = append(out, cur...)
		var next [][]int
		for _, w := range cur {
			for i := 0; i < k; i++ {
				next = append(next, append(append([]int{}, w...), i))
			}
		}
		cur = next
	}
	return append(out, deBruijn(k, max+2))
}

// workerC18 runs shard arg (i/n) and prints a line per sequence: the manager ends
// the process when it fails.
func workerC18(thorough bool, arg string) {
	var shard, n int
	fmt.Sscanf(arg, "%d/%d", &shard, &n)
	s := newStatServer()
	al := statAlphabet()
	w := bufio.NewWriter(os.Stdout)
	for i, seq := range c18Sequences(thorough) {
		if i%n != shard {
			continue
		}
		var cs []statCase
		for _, x := range seq {
			cs = append(cs, al[x])
		}
		fmt.Fprintf(w, "start %d\n", i)
		w.Flush()
		msg := s.run(fmt.Sprintf("db%d", i), cs)
		b, _ := json.Marshal(msg)
		fmt.Fprintf(w, "done %d %d %s\n", i, len(seq)+1, b)
	}
	fmt.Fprintln(w, "end")
	w.Flush()
}

func runC18(c *Ctx) {
	seqs := c18Sequences(c.Thorough)
	al := statAlphabet()
	describe := func(i int) []string {
		var out []string
		for _, x := range seqs[i] {
			out = append(out, fmt.Sprintf("%d %s %v", al[x].msg.Type, al[x].msg.Name, al[x].msg.Value))
			if len(out) > 20 {
				out = append(out, "...")
				break
			}
		}
		return out
	}
	n := 8
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	var wg sync.WaitGroup
	for sh := 0; sh < n; sh++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			args := []string{"-id", "C18", "-worker", fmt.Sprintf("%d/%d", sh, n)}
			if c.Thorough {
				args = append(args, "-tier", "thorough")
			}
			cmd := exec.Command(exe, args...)
			out, _ := cmd.StdoutPipe()
			errf, _ := os.Create(filepath.Join(c.Scratch, fmt.Sprintf("c18-%d.err", sh)))
			cmd.Stderr = errf
			if err := cmd.Start(); err != nil {
				panic(err)
			}
			cur, ended := -1, false
			sc := bufio.NewScanner(out)
			sc.Buffer(nil, 1<<20)
			for sc.Scan() {
				var i, k int
				l := sc.Text()
				switch {
				case l == "end":
					ended = true
				case strings.HasPrefix(l, "start "):
					fmt.Sscanf(l, "start %d", &cur)
				case strings.HasPrefix(l, "done "):
					fmt.Sscanf(l, "done %d %d", &i, &k)
					var msg string
					json.Unmarshal([]byte(strings.SplitN(l, " ", 4)[3]), &msg)
					c.Count(int64(k), 1)
					if msg != "" {
						c.Violate(fmt.Sprint("seq", seqs[i]), describe(i), "messages %q: %s", describe(i), msg)
					}
				}
			}
			cmd.Wait()
			errf.Close()
			if !ended {
				b, _ := os.ReadFile(errf.Name())
				if cur >= 0 && cur < len(seqs) {
					c.Violate(fmt.Sprint("exit", seqs[cur]), describe(cur), "messages %q: the statistics manager ended the program: %s", describe(cur), clip(string(b), 500))
				} else {
					panic("worker failed: " + string(b))
				}
			}
		}()
	}
	wg.Wait()
	c.Space("message sequences with a manager of their own", len(seqs)-1)
	c.Space("length of the de Bruijn sequence", len(seqs[len(seqs)-1]))
	c.Sample(describe(len(al) + 5))
	c.Sample(describe(len(al)*3 + 2))
}
