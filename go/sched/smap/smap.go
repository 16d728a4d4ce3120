// Package smap keeps sync.Map out of package sched, which is compiled without race
// instrumentation: the instances of generic code made there would replace the
// instrumented ones of the whole program.
package smap

import "sync"

// Map is sync.Map, behind an interface so that nothing of its type is known to the
// importing package.
type Map interface {
	Load(k any) (any, bool)
	Store(k, v any)
	LoadOrStore(k, v any) (any, bool)
	LoadAndDelete(k any) (any, bool)
	Delete(k any)
	Swap(k, v any) (any, bool)
	CompareAndSwap(k, o, v any) bool
	CompareAndDelete(k, o any) bool
	Clear()
	Range(f func(k, v any) bool)
}

// New makes a map.
//
//go:noinline
func New() Map { return new(sync.Map) }
