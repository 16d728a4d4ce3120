// Package gosstrakfc is filled with the rewritten cmd/gosstrak-fc by an overlay.
package gosstrakfc
