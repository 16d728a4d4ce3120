package main

import (
	"fmt"
	"hash"
	"hash/fnv"
	"math"
	"reflect"
	"sort"
)

// deepHash fingerprints everything reachable from v: two values with the same
// fingerprint are structurally equal (up to hash collision). Functions and
// channels count only as nil or not.
func deepHash(v any) uint64 {
	h := fnv.New64a()
	w := &walker{h: h, seen: map[uintptr]int{}}
	w.walk(reflect.ValueOf(v), 0)
	return h.Sum64()
}

type walker struct {
	h    hash.Hash64
	seen map[uintptr]int
	buf  [9]byte
}

func (w *walker) put(tag byte, x uint64) {
	w.buf[0] = tag
	for i := 0; i < 8; i++ {
		w.buf[i+1] = byte(x >> (8 * i))
	}
	w.h.Write(w.buf[:])
}

func (w *walker) walk(v reflect.Value, depth int) {
	if !v.IsValid() {
		w.put('!', 0)
		return
	}
	if depth > 10000 {
		panic("deepHash: too deep")
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			w.put('b', 1)
		} else {
			w.put('b', 0)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		w.put('i', uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		w.put('u', v.Uint())
	case reflect.Float32, reflect.Float64:
		w.put('f', math.Float64bits(v.Float()))
	case reflect.String:
		w.put('s', uint64(v.Len()))
		w.h.Write([]byte(v.String()))
	case reflect.Pointer:
		if v.IsNil() {
			w.put('p', 0)
			return
		}
		if n, ok := w.seen[v.Pointer()]; ok && v.Elem().Type().Size() > 0 {
			w.put('r', uint64(n))
			return
		}
		w.seen[v.Pointer()] = len(w.seen)
		w.put('p', 1)
		w.walk(v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			w.put('I', 0)
			return
		}
		w.put('I', 1)
		w.h.Write([]byte(v.Elem().Type().String()))
		w.walk(v.Elem(), depth+1)
	case reflect.Slice:
		// a nil slice and an empty one answer alike
		w.put('[', uint64(v.Len()))
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i), depth+1)
		}
	case reflect.Array:
		w.put('a', uint64(v.Len()))
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i), depth+1)
		}
	case reflect.Struct:
		w.put('{', uint64(v.NumField()))
		for i := 0; i < v.NumField(); i++ {
			w.walk(v.Field(i), depth+1)
		}
	case reflect.Map:
		w.put('m', uint64(v.Len()))
		type kv struct {
			name string
			k, v reflect.Value
		}
		var es []kv
		it := v.MapRange()
		for it.Next() {
			es = append(es, kv{fmt.Sprint(it.Key()), it.Key(), it.Value()})
		}
		sort.Slice(es, func(i, j int) bool { return es[i].name < es[j].name })
		for _, e := range es {
			w.walk(e.k, depth+1)
			w.walk(e.v, depth+1)
		}
	default:
		if (v.Kind() == reflect.Chan || v.Kind() == reflect.Func) && v.IsNil() {
			w.put('n', 0)
		} else {
			w.put('n', 1)
		}
	}
}
