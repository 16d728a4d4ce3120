module verif.local/v

go 1.26.0

require (
	github.com/iomz/go-llrp v0.0.0-20241026054309-699260a49032
	github.com/iomz/gosstrak v0.0.0
	github.com/looplab/fsm v1.0.2
	golang.org/x/tools v0.52.0
)

require (
	github.com/influxdata/influxdb1-client v0.0.0-20220302092344-a9ab5670611c // indirect
	github.com/moby/spdystream v0.5.0 // indirect
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
)

replace github.com/iomz/gosstrak => /repo
