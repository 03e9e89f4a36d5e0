//go:build go1.21

package mc

import (
	"fmt"
	"sort"
)

// MapDesc makes map iteration go through descending keys.
var MapDesc bool

// MapIt iterates a map in a deterministic order.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// MapIter starts an iteration.
func MapIter[M ~map[K]V, K comparable, V any](m M) *MapIt[K, V] {
	it := &MapIt[K, V]{m: m}
	type ks struct {
		k K
		s string
	}
	l := make([]ks, 0, len(m))
	for k := range m {
		l = append(l, ks{k, fmt.Sprint(k)})
	}
	desc := MapDesc
	sort.Slice(l, func(a, b int) bool {
		if desc {
			return l[a].s > l[b].s
		}
		return l[a].s < l[b].s
	})
	for _, k := range l {
		it.keys = append(it.keys, k.k)
	}
	return it
}

// MapIterKV also declares the variables.
func MapIterKV[M ~map[K]V, K comparable, V any](m M) (it *MapIt[K, V], k K, v V) {
	it = MapIter(m)
	return
}

// MapIterK also declares the key variable.
func MapIterK[M ~map[K]V, K comparable, V any](m M) (it *MapIt[K, V], k K) {
	it = MapIter(m)
	return
}

// MapIterV also declares the value variable.
func MapIterV[M ~map[K]V, K comparable, V any](m M) (it *MapIt[K, V], v V) {
	it = MapIter(m)
	return
}

// Next advances; keys deleted meanwhile are skipped.
func (it *MapIt[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		kk := it.keys[it.i]
		it.i++
		vv, ok := it.m[kk]
		if !ok {
			continue
		}
		if k != nil {
			*k = kk
		}
		if v != nil {
			*v = vv
		}
		return true
	}
	return false
}
