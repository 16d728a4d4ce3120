// Package aleec is filled with the rewritten cmd/ale-ec by an overlay.
package aleec
