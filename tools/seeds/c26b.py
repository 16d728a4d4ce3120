exec(open('/verif/tools/seeds/c26.py').read())
ID='c26-newest-client-only'; PROPERTY='C26'
NEEDS='a second management client while the first one still has a stream open'
BREAKS='the collector keeps one management session only: a new client ends the one before'
EDITS=[('cmd/gosstrak-fc/main.go','			go spdyConn.Serve(spdystream.MirrorStreamHandler)','''			if session != nil {
				session.Close()
			}
			session = spdyConn
			go session.Serve(spdystream.MirrorStreamHandler)'''),('cmd/gosstrak-fc/main.go','		managementListener, err := net','		var session *spdystream.Connection\n		managementListener, err := net')]
DEMO_PKG='cmd/gosstrak-fc'
DEMO=FC+'''
func TestDemo(t *testing.T) {
	a := demoStart(t)
	one := demoOpen(t, demoDial(t, a)); demoEcho(t, one, 10)
	two := demoOpen(t, demoDial(t, a)); demoEcho(t, two, 10)
	demoEcho(t, one, 10)
}
'''
