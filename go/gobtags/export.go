// Package gobtags is laid over with the sources of the converter command (see
// run.sh); this file exports what the check calls.
package gobtags

var (
	MakeByteID   = makeByteID
	MakeUint16PC = makeUint16PC
)
