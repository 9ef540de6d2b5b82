package main

import (
	"encoding/json"
	"reflect"
)

var rawType = reflect.TypeOf(json.RawMessage(nil))

// padRaw surrounds the raw messages and the texts of the marshalers of a value
// with white space, as those made by a json.Encoder are.
func padRaw(v reflect.Value, depth int) {
	if depth > 12 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			padRaw(v.Elem(), depth+1)
		}
	case reflect.Interface:
		if !v.IsNil() && v.Elem().Kind() == reflect.Ptr {
			padRaw(v.Elem(), depth+1)
		}
	case reflect.Slice:
		if v.Type() == rawType {
			if v.CanSet() && v.Len() > 0 {
				v.SetBytes([]byte(" " + string(v.Bytes()) + "\t\n"))
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			padRaw(v.Index(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			padRaw(v.Index(i), depth+1)
		}
	case reflect.Map:
		if v.Type().Elem() == rawType {
			for _, k := range v.MapKeys() {
				if x := v.MapIndex(k); x.Len() > 0 {
					v.SetMapIndex(k, reflect.ValueOf(json.RawMessage(string(x.Bytes())+"\n")))
				}
			}
		}
	case reflect.Struct:
		switch x := v.Interface().(type) {
		case JVal:
			if v.CanSet() && x.Raw != "" {
				v.Field(0).SetString(x.Raw + "\n")
			}
			return
		case JPtr:
			if v.CanSet() && x.Raw != "" {
				v.Field(0).SetString(x.Raw + "\n")
			}
			return
		}
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				padRaw(v.Field(i), depth+1)
			}
		}
	}
}

// useSpare overwrites what lies between the length and the capacity of the
// slices of a result, as appending to them does: it belongs to nobody else.
func useSpare(v reflect.Value, seen map[uintptr]bool, depth int) {
	if depth > 12 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && !seen[v.Pointer()] {
			seen[v.Pointer()] = true
			useSpare(v.Elem(), seen, depth+1)
		}
	case reflect.Interface:
		useSpare(v.Elem(), seen, depth+1)
	case reflect.Slice:
		n, m := v.Len(), v.Cap()
		if m > n+64 {
			m = n + 64
		}
		scalar := false
		switch k := v.Type().Elem().Kind(); {
		case k >= reflect.Bool && k <= reflect.Float64, k == reflect.String:
			scalar = true
		case k == reflect.Interface:
			scalar = v.Type().Elem().NumMethod() == 0
		}
		if scalar && n < m {
			for s, i := v.Slice(n, m), 0; i < m-n; i++ {
				e := s.Index(i)
				switch k := e.Kind(); {
				case !e.CanSet():
				case k == reflect.Bool:
					e.SetBool(true)
				case k <= reflect.Int64:
					e.SetInt(0x55)
				case k <= reflect.Uintptr:
					e.SetUint(0xaa)
				case k <= reflect.Float64:
					e.SetFloat(-7)
				case k == reflect.String:
					e.SetString("overwritten")
				default:
					e.Set(reflect.ValueOf("overwritten"))
				}
			}
			count(stSpare)
		}
		if k := v.Type().Elem().Kind(); k == reflect.Uint8 {
			return
		}
		for i := 0; i < n && i < 200; i++ {
			useSpare(v.Index(i), seen, depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len() && i < 200; i++ {
			useSpare(v.Index(i), seen, depth+1)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			useSpare(v.MapIndex(k), seen, depth+1)
		}
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				useSpare(v.Field(i), seen, depth+1)
			}
		}
	}
}
