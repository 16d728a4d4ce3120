exec(open('/verif/tools/seeds/c26.py').read())
ID='c26-sixteen-at-a-time'; PROPERTY='C26'
NEEDS='seventeen notification clients connected at once'
BREAKS='ale-ec serves at most sixteen clients at a time; the next one is accepted, but waits until one of the others leaves'
EDITS=[('cmd/ale-ec/main.go','		go spdyConn.Serve(spdystream.MirrorStreamHandler)','''		slots <- struct{}{}
		go func() {
			defer func() { <-slots }()
			spdyConn.Serve(spdystream.MirrorStreamHandler)
		}()'''),('cmd/ale-ec/main.go','	for {\n		c, err','	slots := make(chan struct{}, 16)\n	for {\n		c, err')]
DEMO_PKG='cmd/ale-ec'
DEMO=EC+'''
func TestDemo(t *testing.T) {
	a := demoStart(t)
	for i := 0; i < 24; i++ { demoEcho(t, demoOpen(t, demoDial(t, a)), 100) }
}
'''
