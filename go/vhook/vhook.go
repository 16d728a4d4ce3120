// Package vhook stands in for the statistics database.
package vhook

import (
	"errors"
	"time"

	client "github.com/influxdata/influxdb1-client/v2"
)

// Write receives every batch of points the statistics manager writes.
var Write func(bp client.BatchPoints) error

type stub struct{}

// NewHTTPClient is client.NewHTTPClient.
func NewHTTPClient(conf client.HTTPConfig) (client.Client, error) {
	if Write == nil {
		return client.NewHTTPClient(conf)
	}
	return stub{}, nil
}

func (stub) Ping(time.Duration) (time.Duration, string, error) { return 0, "", nil }
func (stub) Write(bp client.BatchPoints) error                 { return Write(bp) }
func (stub) Query(client.Query) (*client.Response, error)      { return nil, errors.New("no queries") }
func (stub) QueryAsChunk(client.Query) (*client.ChunkedResponse, error) {
	return nil, errors.New("no queries")
}
func (stub) Close() error { return nil }
