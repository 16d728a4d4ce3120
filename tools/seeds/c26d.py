exec(open('/verif/tools/seeds/c26.py').read())
ID='c26-idle-notifications'; PROPERTY='C26'
NEEDS='a notification client that sends nothing for a while with a stream open'
BREAKS='ale-ec ends connections that were idle for five seconds'
EDITS=[('cmd/ale-ec/main.go','		go spdyConn.Serve(spdystream.MirrorStreamHandler)','''		spdyConn.SetIdleTimeout(5 * time.Second)
		go func() {
			spdyConn.Serve(spdystream.MirrorStreamHandler)
			log.Println("client left")
		}()'''),('cmd/ale-ec/main.go','	"os"\n','	"os"\n	"time"\n')]
DEMO_PKG='cmd/ale-ec'
DEMO=EC+'''
func TestDemo(t *testing.T) {
	s := demoOpen(t, demoDial(t, demoStart(t)))
	demoEcho(t, s, 10)
	time.Sleep(12 * time.Second)
	demoEcho(t, s, 10)
}
'''
