COMMON='''package main
import ("testing";"time";"net";"os";"io";"net/http";"bytes";"path/filepath";"github.com/moby/spdystream")
var _ = http.Header{}
var _ = bytes.Equal
var _ = filepath.Join
func demoAddr() string { m, _ := net.Listen("tcp", "127.0.0.1:0"); a := m.Addr().String(); m.Close(); return a }
func demoDial(t *testing.T, a string) net.Conn {
	for i := 0; i < 200; i++ {
		if c, err := net.Dial("tcp", a); err == nil { return c }
		time.Sleep(50 * time.Millisecond)
	}
	t.Fatal("nobody listens"); return nil
}
func demoOpen(t *testing.T, c net.Conn) *spdystream.Stream {
	sc, err := spdystream.NewConnection(c, false)
	if err != nil { t.Fatal(err) }
	go sc.Serve(spdystream.NoOpStreamHandler)
	s, err := sc.CreateStream(http.Header{"X": {"y"}}, nil, false)
	if err != nil { t.Fatal(err) }
	if err := s.WaitTimeout(10 * time.Second); err != nil { t.Fatal("not answered: ", err) }
	return s
}
func demoEcho(t *testing.T, s *spdystream.Stream, n int) {
	data := bytes.Repeat([]byte("abcdefg"), n/7+1)[:n]
	go s.Write(data)
	got := make([]byte, n)
	ok := make(chan error, 1)
	go func() { _, err := io.ReadFull(s, got); ok <- err }()
	select {
	case err := <-ok:
		if err != nil || !bytes.Equal(got, data) { t.Fatal("not mirrored: ", err) }
	case <-time.After(10 * time.Second):
		t.Fatal("not mirrored")
	}
}
'''
EC=COMMON+'''
func demoStart(t *testing.T) string {
	a := demoAddr(); _, p, _ := net.SplitHostPort(a)
	os.Args = []string{"ale-ec", "--port=" + p}
	go main()
	return a
}
'''
FC=COMMON+'''
func demoStart(t *testing.T) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil { t.Skip(err) }
	go func() { for { c, err := l.Accept(); if err != nil { return }; go io.Copy(io.Discard, c) } }()
	a := demoAddr()
	f := filepath.Join(t.TempDir(), "ecspec.csv")
	os.WriteFile(f, []byte("http://a,urn:epc:pat:sgtin-96:3\\n"), 0644)
	os.Args = []string{"gosstrak-fc", "start", "--ecspecfile=" + f, "--ip=" + l.Addr().String(), "--managementAddr=" + a}
	go main()
	return a
}
'''
