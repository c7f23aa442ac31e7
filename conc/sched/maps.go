package sched

import (
	"reflect"
	"strconv"
)

// MapIter runs over a map in a fixed order (the language leaves it open), so
// that a schedule can be replayed. Entries removed meanwhile are not visited.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	K    K
	V    V
}

func RangeMap[M ~map[K]V, K comparable, V any](m M) *MapIter[K, V] {
	it := &MapIter[K, V]{m: m}
	var names []string
	for k := range m {
		n := keyName(reflect.ValueOf(k))
		i := len(names)
		names = append(names, n)
		it.keys = append(it.keys, k)
		for i > 0 && names[i-1] > n {
			names[i], it.keys[i] = names[i-1], it.keys[i-1]
			i--
		}
		names[i], it.keys[i] = n, k
	}
	return it
}

func (it *MapIter[K, V]) Next() bool {
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		if v, ok := it.m[k]; ok {
			it.K, it.V = k, v
			return true
		}
	}
	return false
}

func keyName(v reflect.Value) string {
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return pad(uint64(v.Int()) ^ 1<<63)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return pad(v.Uint())
	case reflect.Array:
		s := ""
		for i := 0; i < v.Len(); i++ {
			s += keyName(v.Index(i)) + ","
		}
		return s
	case reflect.Struct:
		s := ""
		for i := 0; i < v.NumField(); i++ {
			s += keyName(v.Field(i)) + ","
		}
		return s
	case reflect.Interface:
		if v.IsNil() {
			return ""
		}
		return keyName(v.Elem())
	}
	return ""
}

func pad(x uint64) string {
	s := strconv.FormatUint(x, 10)
	for len(s) < 20 {
		s = "0" + s
	}
	return s
}
