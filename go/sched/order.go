// Package sched is the runtime the rewritten sources are linked against.
//
// It has two independent halves. The first (this file) takes the order in which
// maps are ranged over out of the hands of the Go runtime, so that a checker can
// enumerate it. The second is a cooperative scheduler with virtual time.
package sched

import (
	"fmt"
	"iter"
	"sort"
)

// MapOrder chooses the order in which a map with n entries is ranged over: it
// returns a permutation of 0..n-1 (applied to the sorted keys). nil means sorted.
var MapOrder func(n int) []int

// RangeMap ranges over m in the controlled order with Go's semantics: entries
// deleted during the iteration before they are reached are not produced.
func RangeMap[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		if len(keys) > 1 {
			names := make([]string, len(keys))
			idx := make([]int, len(keys))
			for i, k := range keys {
				idx[i] = i
				if s, ok := any(k).(string); ok {
					names[i] = s
				} else {
					names[i] = fmt.Sprint(k)
				}
			}
			sort.Slice(idx, func(a, b int) bool { return names[idx[a]] < names[idx[b]] })
			sorted := make([]K, len(keys))
			for i, j := range idx {
				sorted[i] = keys[j]
			}
			keys = sorted
			if MapOrder != nil {
				if p := MapOrder(len(keys)); p != nil {
					out := make([]K, len(keys))
					for i, j := range p {
						out[i] = keys[j]
					}
					keys = out
				}
			}
		}
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// Permutation returns the idx-th permutation (factorial number system) of n.
func Permutation(n, idx int) []int {
	pool := make([]int, n)
	for i := range pool {
		pool[i] = i
	}
	out := make([]int, 0, n)
	for i := n; i > 0; i-- {
		f := 1
		for j := 2; j < i; j++ {
			f *= j
		}
		q := idx / f
		idx %= f
		q %= len(pool)
		out = append(out, pool[q])
		pool = append(pool[:q], pool[q+1:]...)
	}
	return out
}
