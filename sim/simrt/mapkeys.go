package simrt

import (
	"reflect"
	"sort"
)

// typeIndex gives a stable order to the type descriptors used as map keys.
var typeIndex = map[uintptr]int{}

// RegisterType gives the next index to a type descriptor address.
func RegisterType(p uintptr) {
	if _, ok := typeIndex[p]; !ok {
		typeIndex[p] = len(typeIndex)
	}
}

// MapKeys returns the keys of a map in an order that depends only on the run
// (the instrumented sources range over maps through it).
//
//go:norace
func MapKeys(m interface{}) []interface{} {
	v := reflect.ValueOf(m)
	if v.Len() == 0 {
		return nil
	}
	keys := v.MapKeys()
	less := func(a, b reflect.Value) bool { return false }
	switch v.Type().Key().Kind() {
	case reflect.String:
		less = func(a, b reflect.Value) bool { return a.String() < b.String() }
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		less = func(a, b reflect.Value) bool { return a.Int() < b.Int() }
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		less = func(a, b reflect.Value) bool { return a.Uint() < b.Uint() }
	case reflect.Uintptr:
		less = func(a, b reflect.Value) bool {
			x, y := uintptr(a.Uint()), uintptr(b.Uint())
			ix, okx := typeIndex[x]
			iy, oky := typeIndex[y]
			if okx != oky {
				return okx
			}
			if okx {
				return ix < iy
			}
			return x < y
		}
	}
	sort.Slice(keys, func(i, j int) bool { return less(keys[i], keys[j]) })
	if Active() {
		// any order is a legal one: let the run decide
		for i := len(keys) - 1; i > 0; i-- {
			j := int(mapRnd() % uint64(i+1))
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	r := make([]interface{}, len(keys))
	for i := range keys {
		r[i] = keys[i].Interface()
	}
	return r
}

var mapRng uint64

// SeedMaps seeds the order of map iteration.
func SeedMaps(s uint64) { mapRng = s }

//go:norace
func mapRnd() uint64 {
	mapRng += 0x9e3779b97f4a7c15
	z := mapRng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
