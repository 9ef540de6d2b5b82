package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
)

// render writes a Go value in a canonical form: concrete types of interfaces,
// nil-ness, exact float bits, sorted map entries. Unexported fields of structs
// are rendered as well (reading only).
func render(v interface{}) string {
	r := renderer{}
	r.val(reflect.ValueOf(v), 0)
	return string(r.b)
}

type renderer struct{ b []byte }

func (r *renderer) s(s string) { r.b = append(r.b, s...) }

const maxRenderDepth = 600

func (r *renderer) val(v reflect.Value, depth int) {
	if depth > maxRenderDepth {
		r.s("<deep>")
		return
	}
	if !v.IsValid() {
		r.s("nil")
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		r.b = strconv.AppendBool(r.b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		r.b = strconv.AppendInt(r.b, v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		r.b = strconv.AppendUint(r.b, v.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		r.b = strconv.AppendFloat(r.b, f, 'g', -1, 64)
		if f == 0 && math.Signbit(f) {
			r.s("(neg)")
		}
	case reflect.String:
		r.b = strconv.AppendQuote(r.b, v.String())
	case reflect.Ptr:
		if v.IsNil() {
			r.s("nilptr")
			return
		}
		r.s("&")
		r.val(v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			r.s("nil")
			return
		}
		r.s("(")
		r.s(v.Elem().Type().String())
		r.s(")")
		r.val(v.Elem(), depth+1)
	case reflect.Slice:
		if v.IsNil() {
			r.s("nilslice")
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			r.s("b")
			r.b = strconv.AppendQuote(r.b, string(v.Bytes()))
			return
		}
		fallthrough
	case reflect.Array:
		r.s("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				r.s(" ")
			}
			r.val(v.Index(i), depth+1)
		}
		r.s("]")
	case reflect.Map:
		if v.IsNil() {
			r.s("nilmap")
			return
		}
		var es []string
		it := v.MapRange()
		for it.Next() {
			var e renderer
			e.val(it.Key(), depth+1)
			e.s(":")
			e.val(it.Value(), depth+1)
			es = append(es, string(e.b))
		}
		sort.Strings(es)
		r.s("map[")
		for i, e := range es {
			if i > 0 {
				r.s(" ")
			}
			r.s(e)
		}
		r.s("]")
	case reflect.Struct:
		r.s("{")
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				r.s(" ")
			}
			r.s(v.Type().Field(i).Name)
			r.s("=")
			r.val(v.Field(i), depth+1)
		}
		r.s("}")
	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
		r.s(fmt.Sprintf("<%s nil=%v>", v.Kind(), v.IsNil()))
	default:
		r.s("<" + v.Kind().String() + ">")
	}
}

// renderNode renders a model tree as Iterator.Read / encoding/json produce it
// for an interface{} target.
func nodeValue(n *node, useNumber bool) interface{} {
	switch n.kind {
	case 'n':
		return nil
	case 't':
		return true
	case 'f':
		return false
	case '0':
		if useNumber {
			return json.Number(n.num)
		}
		f, _ := strconv.ParseFloat(n.num, 64)
		return f
	case 's':
		return n.str
	case 'a':
		a := make([]interface{}, 0, len(n.kids))
		for _, k := range n.kids {
			a = append(a, nodeValue(k, useNumber))
		}
		return a
	case 'o':
		m := make(map[string]interface{}, len(n.kids))
		for i, k := range n.kids {
			m[n.keys[i]] = nodeValue(k, useNumber)
		}
		return m
	}
	return nil
}
