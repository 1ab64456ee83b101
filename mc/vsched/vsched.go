// Package vsched puts the choices an execution makes by itself, the order in
// which maps are walked and the order in which goroutines run, under the
// control of an explorer. The calls are put into a copy of the code under test
// by cmd/instr.
package vsched

import (
	"fmt"
	"sort"
)

// Order decides the next element of a map walk out of n. nil means the first.
var Order func(n int) int

// Added decides whether a walk visits elements that are added during it.
var Added func() bool

// Walks counts the map walks of more than one element.
var Walks int

// It is a walk over a map in a chosen order.
type It[K comparable, V any] struct {
	m     map[K]V
	todo  []K
	known map[K]bool
}

func sorted[K comparable](ks []K) {
	names := map[K]string{}
	for _, k := range ks {
		names[k] = fmt.Sprintf("%T %v", k, k)
	}
	sort.SliceStable(ks, func(i, j int) bool { return names[ks[i]] < names[ks[j]] })
}

// Start begins a walk; the zero key and value are for declaring variables.
func Start[M ~map[K]V, K comparable, V any](m M) (it *It[K, V], k K, v V) {
	it = &It[K, V]{m: m, known: map[K]bool{}}
	for k := range m {
		it.todo = append(it.todo, k)
		it.known[k] = true
	}
	sorted(it.todo)
	if len(it.todo) > 1 {
		Walks++
	}
	return it, k, v
}

func StartIt[M ~map[K]V, K comparable, V any](m M) *It[K, V] {
	it, _, _ := Start[M, K, V](m)
	return it
}

func StartK[M ~map[K]V, K comparable, V any](m M) (*It[K, V], K) {
	it, k, _ := Start[M, K, V](m)
	return it, k
}

func StartV[M ~map[K]V, K comparable, V any](m M) (*It[K, V], V) {
	it, _, v := Start[M, K, V](m)
	return it, v
}

// Next goes to the next element that is still there.
func (it *It[K, V]) Next(k *K, v *V) bool {
	if len(it.m) > 0 {
		var extra []K
		for k := range it.m {
			if !it.known[k] {
				extra = append(extra, k)
				it.known[k] = true
			}
		}
		sorted(extra)
		for _, k := range extra {
			if Added != nil && Added() {
				it.todo = append(it.todo, k)
			}
		}
	}
	for len(it.todo) > 0 {
		i := 0
		if len(it.todo) > 1 && Order != nil {
			i = Order(len(it.todo))
		}
		key := it.todo[i]
		it.todo = append(it.todo[:i:i], it.todo[i+1:]...)
		if val, has := it.m[key]; has {
			if k != nil {
				*k = key
			}
			if v != nil {
				*v = val
			}
			return true
		}
	}
	return false
}
