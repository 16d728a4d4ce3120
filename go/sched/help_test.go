package sched

import "unsafe"

var pad int
var nil2 = unsafe.Pointer(&pad)
