package main

import (
	"encoding/json"
	"reflect"
)

// preset is what the target of a decoding holds before it.
type preset struct {
	Kind string `json:"kind"` // doc, val, ptr, chain, nilptr, pp, loop, dyn
	Type string `json:"type,omitempty"`
	Doc  []byte `json:"doc,omitempty"`
	N    int    `json:"n,omitempty"` // pointers before the loop, or in the chain
	M    int    `json:"m,omitempty"` // pointers in the loop
}

func (p *preset) target(typ string) interface{} {
	if p == nil {
		return newTarget(typ)
	}
	if ts := curTask(); ts != nil {
		ts.quiet = true
		defer func() { ts.quiet = false }()
	}
	fill := func(typ string) interface{} {
		x := newTarget(typ)
		if len(p.Doc) > 0 {
			if err := json.Unmarshal(p.Doc, x); err != nil {
				panic("harness: preset " + string(p.Doc) + " of " + typ + ": " + err.Error())
			}
		}
		return x
	}
	switch p.Kind {
	case "doc":
		return fill(typ)
	case "dyn":
		d := newTarget(typ).(*DynM)
		d.J, d.T, d.E = &JPtr{"1"}, &TPtr{"t"}, fill(p.Type)
		return d
	}
	x := new(interface{})
	switch p.Kind {
	case "val": // a value that is not a pointer
		*x = reflect.ValueOf(fill(p.Type)).Elem().Interface()
	case "ptr":
		*x = fill(p.Type)
	case "chain":
		y := x
		for i := 0; i <= p.N; i++ {
			z := new(interface{})
			*y, y = z, z
		}
		*y = fill(p.Type)
	case "loop":
		y := x
		for i := 0; i < p.N; i++ {
			z := new(interface{})
			*y, y = z, z
		}
		z := y
		for i := 0; i < p.M; i++ {
			z := new(interface{})
			*y, y = z, z
		}
		*y = z
	case "nilptr":
		*x = reflect.Zero(reflect.PtrTo(byName[p.Type].typ)).Interface()
	case "pp": // pointer to a nil pointer
		*x = reflect.New(reflect.PtrTo(byName[p.Type].typ)).Interface()
	default:
		panic("harness: preset " + p.Kind)
	}
	if typ == "[]any" {
		return &[]interface{}{*x, 1, *x}
	}
	if typ == "map[string]any" {
		return &map[string]interface{}{"a": *x, "b": *x}
	}
	return x
}

// presetFor makes something for a target of the type to hold.
func (b *builder) presetFor(typ string) *preset {
	r := b.r
	switch typ {
	case "any", "[]any", "map[string]any":
		if typ == "any" && r.p(1, 4) {
			p := &preset{Kind: "loop"}
			if r.p(2, 3) {
				p.N, p.M = r.n(7), r.n(7)
			}
			return p
		}
		ti := b.typ()
		p := &preset{Kind: r.pick("ptr", "ptr", "ptr", "chain", "val", "nilptr", "pp"), Type: ti.name}
		if p.Kind == "chain" && r.p(1, 2) {
			p.N = r.n(9)
		}
		if r.p(1, 2) {
			p.Doc = genDoc(r.fork(), ti, b.size(), nil)
		}
		return p
	}
	return &preset{Kind: "doc", Doc: genDoc(r.fork(), byName[typ], b.size(), nil)}
}

// hard are documents for types that can be decoded in part only.
var hard = map[string][]string{
	"HasChan": {`{"a":1}`, `{"a":1,"c":null}`, `{"c":[1],"a":2}`, `{"x":{},"a":3}`},
	"HasFunc": {`{"a":"x","b":[1]}`, `{"f":1}`, `{"f":null,"a":"y"}`, `{"b":[2],"f":{}}`},
	"BadKey":  {`{"a":1}`, `{"m":{"x":"y"}}`, `{"a":1,"m":null}`, `{"m":[],"a":"x"}`},
	"chan":    {`1`, `null`, `{}`, `[]`},
	"DynM":    {`{"s":"x"}`, `{"j":null,"s":"y"}`, `{"j":{"a":1},"s":"z"}`, `{"t":"text","e":[1,{"b":2}]}`, `{"t":null,"j":[1, 2],"e":{}}`, `{"e":null}`},
}

// preset makes the target of the operation an unusual one. There is no
// reference for the value but the same decoding done in another way.
func (b *builder) preset(o *op) {
	r := b.r
	o.Dirty = true
	if r.p(1, 5) {
		o.Type = r.pick("HasChan", "HasFunc", "BadKey", "chan", "DynM", "DynM")
		o.Doc = []byte(r.pick(hard[o.Type]...))
		if o.Type == "DynM" && r.p(3, 4) {
			ti := b.typ()
			o.Preset = &preset{Kind: "dyn", Type: ti.name}
		}
	} else {
		o.Preset = b.presetFor(o.Type)
	}
	o.R = b.reader(len(o.Doc))
}
