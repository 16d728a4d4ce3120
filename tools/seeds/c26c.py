exec(open('/verif/tools/seeds/c26.py').read())
ID='c26-waits-for-greeting'; PROPERTY='C26'
NEEDS='a management client that connects and says nothing, before another one'
BREAKS='the collector waits for the first byte of a client before it accepts the next one; a silent client keeps all others out'
EDITS=[('cmd/gosstrak-fc/main.go','			spdyConn, err := spdystream.NewConnection(c, true)','''			// leave out the ones that only probe the port
			br := bufio.NewReader(c)
			if _, err := br.Peek(1); err != nil {
				c.Close()
				continue
			}
			spdyConn, err := spdystream.NewConnection(&peekedConn{c, br}, true)'''),
('cmd/gosstrak-fc/main.go','	"net"\n','	"bufio"\n	"net"\n'),
('cmd/gosstrak-fc/main.go','func main() {','''type peekedConn struct {
	net.Conn
	br *bufio.Reader
}

func (c *peekedConn) Read(p []byte) (int, error) { return c.br.Read(p) }

func main() {''')]
DEMO_PKG='cmd/gosstrak-fc'
DEMO=FC+'''
func TestDemo(t *testing.T) {
	a := demoStart(t)
	demoEcho(t, demoOpen(t, demoDial(t, a)), 10)
	demoDial(t, a)
	demoEcho(t, demoOpen(t, demoDial(t, a)), 10)
}
'''
