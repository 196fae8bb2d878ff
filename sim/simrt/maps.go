package simrt

import (
	"fmt"
	"reflect"
	"sort"
)

var mapSeed, mapNo uint64

// MapIt stands in for the iteration of a map: the order, which Go leaves
// open, is a seeded permutation.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	k    K
	v    V
}

func MapIter[M ~map[K]V, K comparable, V any](m M) *MapIt[K, V] {
	it := &MapIt[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sortKeys(it.keys)
	mapNo++
	if mapSeed != 0 {
		r := NewRand(Mix(mapSeed, mapNo))
		for i := len(it.keys) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
		}
	}
	return it
}

func (it *MapIt[K, V]) Next() bool {
	for len(it.keys) > 0 {
		k := it.keys[0]
		it.keys = it.keys[1:]
		v, ok := it.m[k]
		if !ok && k == k { // deleted meanwhile
			continue
		}
		it.k, it.v = k, v
		return true
	}
	return false
}

func (it *MapIt[K, V]) Key() K   { return it.k }
func (it *MapIt[K, V]) Value() V { return it.v }

func sortKeys[K comparable](ks []K) {
	if len(ks) < 2 {
		return
	}
	switch reflect.TypeOf(&ks[0]).Elem().Kind() {
	case reflect.String:
		sort.Slice(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).String() < reflect.ValueOf(ks[j]).String() })
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sort.Slice(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).Int() < reflect.ValueOf(ks[j]).Int() })
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		sort.Slice(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).Uint() < reflect.ValueOf(ks[j]).Uint() })
	case reflect.Float32, reflect.Float64:
		sort.Slice(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).Float() < reflect.ValueOf(ks[j]).Float() })
	default:
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprintf("%#v", ks[i]) < fmt.Sprintf("%#v", ks[j]) })
	}
}
