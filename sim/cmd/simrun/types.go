package main

import (
	"encoding"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"unsafe"

	"github.com/zerosnake0/jzon"
	"verif.local/sim/simrt"
)

// ---------------------------------------------------------------- plain types

type (
	NStr   string
	NInt   int
	NI8    int8
	NBool  bool
	NF32   float32
	NByte  byte
	NBytes []byte
	NBArr  []NByte
	NMap   map[string]int
	NIface interface{}
)

type Empty struct{}
type One struct{ A int }
type OneStr struct {
	Name string `json:"name"`
}
type OnePtr struct{ P *int }
type OneMap struct {
	M map[string]string `json:"m"`
}
type Small struct {
	Id    int64   `json:"id"`
	Name  string  `json:"name"`
	Score float64 `json:"score,omitempty"`
	Tags  []string
	Ok    bool `json:",omitempty"`
	Skip  int  `json:"-"`
	Raw   json.RawMessage
	Num   json.Number `json:"num"`
}
type Inner struct {
	X int `json:"x"`
	Y *Inner2
}
type Inner2 struct {
	Z string `json:"z"`
	W []byte
}
type Embed struct {
	Inner
	*Inner2
	V  interface{} `json:"v"`
	X2 NInt        `json:"x2,string"`
}
type Large struct {
	A  int8              `json:"a"`
	B  int16             `json:"b"`
	C  int32             `json:"c"`
	D  int64             `json:"d"`
	E  uint8             `json:"e"`
	F  uint16            `json:"f"`
	G  uint32            `json:"g"`
	H  uint64            `json:"h"`
	I  float32           `json:"i"`
	J  float64           `json:"j"`
	K  string            `json:"k"`
	L  bool              `json:"l"`
	M  map[string]*Inner `json:"m"`
	N  []Inner2          `json:"n"`
	O  *Small            `json:"o"`
	P  interface{}       `json:"p"`
	Q  [3]int            `json:"q"`
	R  [2]string         `json:"r"`
	S  **int             `json:"s"`
	Tt []byte            `json:"tt"`
	U  uint              `json:"u"`
	Kk string            `json:"kk"`
	Ka string            `json:"ka"`
	Kb string            `json:"kb"`
	Lk int               `json:"longer_key_name_with_many_characters"`
	Ll int               `json:"longer_key_name_with_many_characterz"`
}
type Quoted struct {
	I  int    `json:"i,string"`
	U  uint8  `json:"u,string"`
	B  bool   `json:"b,string"`
	S  string `json:"s,string"`
	PI *int64 `json:"pi,string"`
}

// QuotedAll has every kind that ",string" applies to, except the floats.
type QuotedAll struct {
	A int8    `json:"a,string"`
	B int16   `json:"b,string"`
	C int32   `json:"c,string"`
	D int64   `json:"d,omitempty,string"`
	E uint    `json:"e,string"`
	F uint16  `json:"f,string"`
	G uint32  `json:"g,string,omitempty"`
	H uint64  `json:"h,string"`
	I uintptr `json:"i,string"`
	J NInt    `json:"j,string"`
	K *bool   `json:"k,string"`
	L *uint32 `json:"l,omitempty,string"`
	M []int   `json:"m,string"`
	N *string `json:"n,string"`
}
type Quoted1 struct {
	A uint64 `json:"a,string"`
}

// embedded pointers, in structs of every size
type EmbMid struct {
	*Inner2
	Mid int `json:"mid"`
}
type EmbOne struct{ *OneStr }
type EmbDeep struct{ *EmbMid }
type embU struct {
	U  []string          `json:"u"`
	Um map[string]string `json:"um"`
}
type EmbLarge struct {
	*EmbMid
	*Inner
	embU
	A0 int               `json:"a0"`
	A1 string            `json:"a1"`
	A2 *int              `json:"a2"`
	A3 []string          `json:"a3"`
	A4 map[string]Inner2 `json:"a4"`
	A5 interface{}       `json:"a5"`
	A6 float64           `json:"a6"`
	A7 bool              `json:"a7"`
	A8 uint8             `json:"a8"`
	A9 []byte            `json:"a9"`
	B0 int               `json:"b0,string"`
	B1 string            `json:"b1"`
	B2 *EmbOne           `json:"b2"`
	B3 []EmbDeep         `json:"b3"`
	B4 [2]Empty          `json:"b4"`
	B5 json.Number       `json:"b5"`
	B6 int16             `json:"b6"`
	B7 string            `json:"größe"`
	B8 int               `json:"日本"`
	B9 int               `json:"größer"`
}

// names in conflict
type ConfA struct {
	Dup  int    `json:"dup"`
	Same string `json:"Same"`
	Near int    `json:"near"`
}
type ConfB struct {
	Dup  string `json:"dup"`
	Same int
	Near string `json:"near"`
}
type Conf struct {
	ConfA
	*ConfB
	Near []int `json:"near"`
	Own  bool  `json:"own"`
}
type OmitKinds struct {
	A int8                   `json:"a,omitempty"`
	B int16                  `json:"b,omitempty"`
	C int32                  `json:"c,omitempty"`
	D int64                  `json:"d,omitempty"`
	E uint8                  `json:"e,omitempty"`
	F uint16                 `json:"f,omitempty"`
	G uint32                 `json:"g,omitempty"`
	H uint64                 `json:"h,omitempty"`
	I uintptr                `json:"i,omitempty"`
	J bool                   `json:"j,omitempty"`
	K float64                `json:"k,omitempty"`
	L json.Number            `json:"l,omitempty"`
	M json.RawMessage        `json:"m,omitempty"`
	N uint                   `json:"n,omitempty"`
	O []byte                 `json:"o,omitempty"`
	P [1]string              `json:"p,omitempty"`
	Q *Empty                 `json:"q,omitempty"`
	R map[NStr]interface{}   `json:"r,omitempty"`
	S []interface{}          `json:"s,omitempty"`
	T **int                  `json:"t,omitempty"`
	U NStr                   `json:"u,omitempty"`
	V Inner                  `json:"v,omitempty"`
	W json.Marshaler         `json:"w,omitempty"`
	X encoding.TextMarshaler `json:"x,omitempty"`
	Y fmt.Stringer           `json:"y,omitempty"`
}
type OmitCB struct {
	A JVal         `json:"a,omitempty"`
	B *JPtr        `json:"b,omitempty"`
	C TVal         `json:"c,omitempty"`
	D *TPtr        `json:"d,omitempty"`
	E JDir         `json:"e,omitempty"`
	F []JVal       `json:"f,omitempty"`
	G map[TKey]int `json:"g,omitempty"`
	H string       `json:"h,omitempty"`
	I *JVal        `json:"i,omitempty"`
	J TDir         `json:"j,omitempty"`
}

// HoldIface has interfaces with methods.
type HoldIface struct {
	A fmt.Stringer            `json:"a"`
	B []fmt.Stringer          `json:"b"`
	C map[string]fmt.Stringer `json:"c"`
	D *fmt.Stringer           `json:"d"`
	E [1]fmt.Stringer         `json:"e"`
	F string                  `json:"f"`
}
type (
	StrS struct {
		A string `json:"a"`
		B []int  `json:"b,omitempty"`
	}
	StrM map[string]StrS
	StrI int
	StrP struct{ P *StrI }
)

func (StrS) String() string  { return "" }
func (StrM) String() string  { return "" }
func (StrI) String() string  { return "" }
func (*StrP) String() string { return "" }

type OmitAll struct {
	I  int               `json:"i,omitempty"`
	S  string            `json:"s,omitempty"`
	P  *int              `json:"p,omitempty"`
	A  []int             `json:"a,omitempty"`
	M  map[string]string `json:"m,omitempty"`
	E  interface{}       `json:"e,omitempty"`
	Ar [0]int            `json:"ar,omitempty"`
	St One               `json:"st,omitempty"`
	F  float32           `json:"f,omitempty"`
}
type Rec struct {
	Val  int             `json:"val"`
	Next *Rec            `json:"next"`
	Kids []Rec           `json:"kids"`
	M    map[string]*Rec `json:"m"`
	Any  interface{}     `json:"any"`
}
type MutA struct {
	B  *MutB  `json:"b"`
	Bs []MutB `json:"bs"`
	N  string `json:"n"`
}
type MutB struct {
	A  *MutA           `json:"a"`
	As map[string]MutA `json:"as"`
	K  []*int          `json:"k"`
}
type Ptrs struct {
	A *int
	B **string
	C *[]string
	D *map[string]int
	E *[2]bool
	F *interface{}
	G *Small
	H []*Inner2
}
type Bin struct {
	A []byte
	B NBytes
	C NBArr
	D [4]byte
	E [][]byte
	F map[string][]byte
}
type Keys struct {
	A map[int]string
	B map[int8]int
	C map[uint64]bool
	D map[NStr]int
	E map[TKey]int
	F map[uint8]map[int16]string
}
type KeyKinds struct {
	A map[int32]string
	B map[uint32]*int
	C map[int64]NStr
	D map[uint]bool
	E map[uintptr]int
	F map[NInt]string
	G map[NI8][]int
	H map[uint16]map[int32]uint8
}
type Tagged1 struct {
	X []int `json:"p,omitempty" jz:"q"`
}

type TaggedN struct {
	Tagged
	P []Tagged1          `json:"q" jz:"p"`
	Q []Tagged1          `json:"p" jz:"q,omitempty"`
	M map[string]Tagged1 `jz:"m"`
	S string             `json:"-" jz:"s"`
}

// TaggedL has names that are swapped with the other tag.
type TaggedL struct {
	A int      `json:"a" jz:"b"`
	B int      `json:"b" jz:"a"`
	C string   `json:"c" jz:"d"`
	D string   `json:"d" jz:"c"`
	E []int    `json:"e" jz:"f"`
	F []int    `json:"f" jz:"e,omitempty"`
	G bool     `json:"g,omitempty"`
	H *int     `json:"h" jz:"-"`
	I *int     `json:"-" jz:"h"`
	J uint8    `json:"j" jz:"J"`
	K []string `jz:"k"`
	L Tagged1
}

// types with the same printed name

func same1() interface{} {
	type Same struct {
		A int
		B string
	}
	return new(Same)
}

func same2() interface{} {
	type Same struct {
		B string
		A int
	}
	return new(Same)
}

func same3() interface{} {
	type Same struct {
		A []int  `json:"B"`
		B string `json:"A"`
	}
	return new(Same)
}

func same4() interface{} {
	type Same []string
	return new(Same)
}

type Tagged struct {
	A int    `jz:"alpha" json:"a"`
	B string `jz:"beta,omitempty"`
	C int    `json:"gamma"`
	D int
}
type Mixed struct {
	Jv JVal            `json:"jv"`
	Jp *JPtr           `json:"jp"`
	Js []JVal          `json:"js"`
	Jm map[string]JPtr `json:"jm"`
	Tv TVal            `json:"tv"`
	Tp *TPtr           `json:"tp"`
	Ts []TPtr          `json:"ts"`
	Tm map[TKey]TVal   `json:"tm"`
	S  string          `json:"s"`
	N  int             `json:"n"`
	A  interface{}     `json:"a"`
	Jd JDir            `json:"jd"`
}
type DynM struct {
	J json.Marshaler         `json:"j"`
	T encoding.TextMarshaler `json:"t"`
	E interface{}            `json:"e"`
	S string                 `json:"s"`
}

// ------------------------------------------------------------- callback types

// JVal marshals with a value receiver, unmarshals with a pointer receiver.
type JVal struct{ Raw string }

func (v JVal) MarshalJSON() ([]byte, error) {
	if err := callback("JVal.MarshalJSON"); err != nil {
		return nil, err
	}
	if v.Raw == "" {
		return []byte("null"), nil
	}
	return []byte(v.Raw), nil
}

func (v *JVal) UnmarshalJSON(b []byte) error {
	c := string(b) // copied before anything else can run
	if err := callback("JVal.UnmarshalJSON"); err != nil {
		return err
	}
	if string(b) != c {
		noteBufferChanged("JVal.UnmarshalJSON", c, b)
	}
	v.Raw = c
	return nil
}

// JPtr has pointer receivers only.
type JPtr struct{ Raw string }

func (v *JPtr) MarshalJSON() ([]byte, error) {
	if err := callback("JPtr.MarshalJSON"); err != nil {
		return nil, err
	}
	if v == nil || v.Raw == "" {
		return []byte("null"), nil
	}
	return []byte(v.Raw), nil
}

func (v *JPtr) UnmarshalJSON(b []byte) error {
	c := string(b)
	if err := callback("JPtr.UnmarshalJSON"); err != nil {
		return err
	}
	if string(b) != c {
		noteBufferChanged("JPtr.UnmarshalJSON", c, b)
	}
	v.Raw = c
	return nil
}

// JDir is a marshaler stored directly in an interface.
type JDir map[string]int

func (v JDir) MarshalJSON() ([]byte, error) {
	if err := callback("JDir.MarshalJSON"); err != nil {
		return nil, err
	}
	return []byte(`"jdir"`), nil
}

// TVal is a text (un)marshaler.
type TVal struct{ S string }

func (v TVal) MarshalText() ([]byte, error) {
	if err := callback("TVal.MarshalText"); err != nil {
		return nil, err
	}
	return []byte("t:" + v.S), nil
}

func (v *TVal) UnmarshalText(b []byte) error {
	c := string(b)
	if err := callback("TVal.UnmarshalText"); err != nil {
		return err
	}
	if string(b) != c {
		noteBufferChanged("TVal.UnmarshalText", c, b)
	}
	v.S = strings.TrimPrefix(c, "t:")
	return nil
}

// TPtr has pointer receivers only.
type TPtr struct{ S string }

func (v *TPtr) MarshalText() ([]byte, error) {
	if err := callback("TPtr.MarshalText"); err != nil {
		return nil, err
	}
	return []byte("p:" + v.S), nil
}

func (v *TPtr) UnmarshalText(b []byte) error {
	c := string(b)
	if err := callback("TPtr.UnmarshalText"); err != nil {
		return err
	}
	if string(b) != c {
		noteBufferChanged("TPtr.UnmarshalText", c, b)
	}
	v.S = strings.TrimPrefix(c, "p:")
	return nil
}

// TKey is a text marshaler usable as a map key.
type TKey struct{ K string }

func (v TKey) MarshalText() ([]byte, error) {
	if err := callback("TKey.MarshalText"); err != nil {
		return nil, err
	}
	return []byte("k:" + v.K), nil
}

func (v *TKey) UnmarshalText(b []byte) error {
	c := string(b)
	if err := callback("TKey.UnmarshalText"); err != nil {
		return err
	}
	if string(b) != c {
		noteBufferChanged("TKey.UnmarshalText", c, b)
	}
	v.K = strings.TrimPrefix(c, "k:")
	return nil
}

// KDir is a text marshaler stored directly in an interface, usable as a map key.
type KDir struct{ P *string }

func (v KDir) MarshalText() ([]byte, error) {
	if err := callback("KDir.MarshalText"); err != nil {
		return nil, err
	}
	return []byte("d:" + *v.P), nil
}

// byte kinds and pointer shaped kinds with methods of every sort
type (
	JByte byte             // value MarshalJSON
	PByte byte             // pointer MarshalJSON
	TByte byte             // pointer MarshalText
	UByte byte             // pointer UnmarshalJSON
	JDirS struct{ P *int } // pointer shaped, value MarshalJSON
	TArr1 [1]*int          // pointer shaped, value MarshalText
	PDir  map[string]int   // map, pointer MarshalJSON
	TDir  map[string]bool  // map, value MarshalText
	XB    []NByte
	YB    []NByte
)

func (v JByte) MarshalJSON() ([]byte, error) {
	return []byte(`"jb"`), callback("JByte.MarshalJSON")
}
func (v *PByte) MarshalJSON() ([]byte, error) {
	return []byte(`"pb"`), callback("PByte.MarshalJSON")
}
func (v *TByte) MarshalText() ([]byte, error) {
	return []byte(`tb`), callback("TByte.MarshalText")
}
func (v *UByte) UnmarshalJSON(b []byte) error {
	*v = UByte(len(b))
	return callback("UByte.UnmarshalJSON")
}
func (v JDirS) MarshalJSON() ([]byte, error) {
	if v.P == nil {
		return []byte(`"nil"`), callback("JDirS.MarshalJSON")
	}
	return []byte(`["jds"]`), callback("JDirS.MarshalJSON")
}
func (v TArr1) MarshalText() ([]byte, error) {
	return []byte("arr"), callback("TArr1.MarshalText")
}
func (v *PDir) MarshalJSON() ([]byte, error) {
	return []byte(`{"pd":1}`), callback("PDir.MarshalJSON")
}
func (v TDir) MarshalText() ([]byte, error) {
	return []byte("td"), callback("TDir.MarshalText")
}

// Cust is handled by custom value codecs in some configs.
type Cust struct {
	A string      `json:"a"`
	B interface{} `json:"b"`
}

type HoldCust struct {
	C  Cust            `json:"c"`
	Cp *Cust           `json:"cp"`
	Cs []Cust          `json:"cs"`
	Cm map[string]Cust `json:"cm"`
	I  CInt            `json:"i"`
	Is []CInt          `json:"is"`
	S  string          `json:"s"`
}

// CInt has a custom codec in some configs.
type CInt int

type custDecoder struct{ mode int }

// Decode reads {"a":..,"b":..} by hand through the iterator API.
func (d *custDecoder) Decode(ptr unsafe.Pointer, it *jzon.Iterator, _ *jzon.DecOpts) error {
	c := (*Cust)(ptr)
	if err := callback("custDecoder"); err != nil {
		return err
	}
	vt, err := it.NextValueType()
	if err != nil {
		return err
	}
	if vt == jzon.NullValue {
		return it.ReadNull()
	}
	return it.ReadObjectCB(func(it *jzon.Iterator, field string) error {
		switch field {
		case "a":
			vt, err := it.NextValueType()
			if err != nil {
				return err
			}
			if vt != jzon.StringValue {
				return it.Skip()
			}
			s, err := it.ReadString()
			if err != nil {
				return err
			}
			c.A = s
			return callback("custDecoder.field")
		case "b":
			if d.mode == 1 {
				b, err := it.ReadRaw()
				if err != nil {
					return err
				}
				c.B = string(b)
				return nil
			}
			v, err := it.Read()
			c.B = v
			return err
		}
		return it.Skip()
	})
}

type custEncoder struct{ mode int }

func (*custEncoder) IsEmpty(ptr unsafe.Pointer) bool { return false }

func (d *custEncoder) Encode(ptr unsafe.Pointer, s *jzon.Streamer, _ *jzon.EncOpts) {
	if ptr == nil {
		s.Null()
		return
	}
	c := (*Cust)(ptr)
	s.ObjectStart().Field("A").String(c.A)
	if err := callback("custEncoder"); err != nil {
		s.Error = err
		return
	}
	if d.mode == 1 {
		s.Field("B").Value(c.B)
	} else {
		s.Field("B").ArrayStart().Value(c.B).Null().ArrayEnd()
	}
	s.ObjectEnd()
}

type cintDecoder struct{}

func (*cintDecoder) Decode(ptr unsafe.Pointer, it *jzon.Iterator, _ *jzon.DecOpts) error {
	if err := callback("cintDecoder"); err != nil {
		return err
	}
	vt, err := it.NextValueType()
	if err != nil {
		return err
	}
	if vt != jzon.NumberValue {
		return it.Skip()
	}
	i, err := it.ReadInt()
	*(*CInt)(ptr) = CInt(i + 1000)
	return err
}

type cintEncoder struct{}

func (*cintEncoder) IsEmpty(ptr unsafe.Pointer) bool { return *(*CInt)(ptr) == 0 }

func (*cintEncoder) Encode(ptr unsafe.Pointer, s *jzon.Streamer, _ *jzon.EncOpts) {
	if ptr == nil {
		s.Null()
		return
	}
	if err := callback("cintEncoder"); err != nil {
		s.Error = err
		return
	}
	s.String("#")
}

// codecs for native kinds: they are used for the named types of the kind too.

type strDecoder struct{}

func (*strDecoder) Decode(ptr unsafe.Pointer, it *jzon.Iterator, _ *jzon.DecOpts) error {
	if err := callback("strDecoder"); err != nil {
		return err
	}
	vt, err := it.NextValueType()
	if err != nil {
		return err
	}
	if vt != jzon.StringValue {
		return it.Skip()
	}
	s, err := it.ReadString()
	*(*string)(ptr) = "~" + s
	return err
}

type strEncoder struct{}

func (*strEncoder) IsEmpty(ptr unsafe.Pointer) bool { return *(*string)(ptr) == "" }

func (*strEncoder) Encode(ptr unsafe.Pointer, s *jzon.Streamer, _ *jzon.EncOpts) {
	if ptr == nil {
		s.Null()
		return
	}
	if err := callback("strEncoder"); err != nil {
		s.Error = err
		return
	}
	s.ArrayStart().String(*(*string)(ptr)).ArrayEnd()
}

type boolDecoder struct{}

func (*boolDecoder) Decode(ptr unsafe.Pointer, it *jzon.Iterator, _ *jzon.DecOpts) error {
	b, err := it.SkipRaw()
	*(*bool)(ptr) = err == nil && len(b) == 5
	return err
}

type boolEncoder struct{}

func (*boolEncoder) IsEmpty(ptr unsafe.Pointer) bool { return false }

func (*boolEncoder) Encode(ptr unsafe.Pointer, s *jzon.Streamer, _ *jzon.EncOpts) {
	if ptr == nil {
		s.Null()
		return
	}
	s.Bool(!*(*bool)(ptr))
}

type strsDecoder struct{}

func (*strsDecoder) Decode(ptr unsafe.Pointer, it *jzon.Iterator, _ *jzon.DecOpts) error {
	if err := callback("strsDecoder"); err != nil {
		return err
	}
	var l []string
	vt, err := it.NextValueType()
	if err != nil {
		return err
	}
	if vt != jzon.ArrayValue {
		return it.Skip()
	}
	err = it.ReadArrayCB(func(it *jzon.Iterator) error {
		b, err := it.SkipRaw()
		l = append(l, string(b))
		return err
	})
	*(*[]string)(ptr) = l
	return err
}

type strsEncoder struct{}

func (*strsEncoder) IsEmpty(ptr unsafe.Pointer) bool { return false }

func (*strsEncoder) Encode(ptr unsafe.Pointer, s *jzon.Streamer, _ *jzon.EncOpts) {
	if ptr == nil {
		s.Null()
		return
	}
	s.Int(len(*(*[]string)(ptr)))
	if err := callback("strsEncoder"); err != nil {
		s.Error = err
	}
}

// --------------------------------------------------------------- unsupported

type HasChan struct {
	A int      `json:"a"`
	C chan int `json:"c"`
}
type HasFunc struct {
	A string `json:"a"`
	F func() `json:"f"`
	B []int  `json:"b"`
}
type BadKey struct {
	A int                  `json:"a"`
	M map[[2]string]string `json:"m"`
}
type HasFloat struct {
	A string  `json:"a"`
	F float64 `json:"f"`
	B string  `json:"b"`
}

// ------------------------------------------------------------------ catalogue

type typeInfo struct {
	name string
	typ  reflect.Type
	cb   bool // has user callbacks
	std  bool // encoding/json is a valid reference for decoding generated documents
	maps bool // encoding order may vary
}

var (
	catalogue []*typeInfo
	byName    = map[string]*typeInfo{}
)

func reg(name string, v interface{}) {
	t := reflect.TypeOf(v).Elem()
	ti := &typeInfo{name: name, typ: t, std: true}
	seen := map[reflect.Type]bool{}
	scan(t, ti, seen)
	catalogue = append(catalogue, ti)
	byName[name] = ti
}

var (
	jmT = reflect.TypeOf((*json.Marshaler)(nil)).Elem()
	juT = reflect.TypeOf((*json.Unmarshaler)(nil)).Elem()
	tmT = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
	tuT = reflect.TypeOf((*encoding.TextUnmarshaler)(nil)).Elem()
	rmT = reflect.TypeOf(json.RawMessage(nil))
	nuT = reflect.TypeOf(json.Number(""))
)

func isCB(t reflect.Type) bool {
	if t == rmT || t == nuT {
		return false
	}
	p := reflect.PtrTo(t)
	return t == reflect.TypeOf(Cust{}) || t == reflect.TypeOf(CInt(0)) || p.Implements(jmT) || p.Implements(juT) || p.Implements(tmT) || p.Implements(tuT)
}

func scan(t reflect.Type, ti *typeInfo, seen map[reflect.Type]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if isCB(t) {
		ti.cb = true
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array:
		scan(t.Elem(), ti, seen)
	case reflect.Map:
		ti.maps = true
		scan(t.Key(), ti, seen)
		scan(t.Elem(), ti, seen)
	case reflect.Interface:
		ti.maps = true
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			scan(t.Field(i).Type, ti, seen)
		}
	}
}

// the names of the types usable as decode targets with generated documents
var decNames, encNames, plainDec []string

func init() {
	reg("bool", new(bool))
	reg("string", new(string))
	reg("int", new(int))
	reg("int8", new(int8))
	reg("int16", new(int16))
	reg("int32", new(int32))
	reg("int64", new(int64))
	reg("uint", new(uint))
	reg("uint8", new(uint8))
	reg("uint16", new(uint16))
	reg("uint32", new(uint32))
	reg("uint64", new(uint64))
	reg("uintptr", new(uintptr))
	reg("float32", new(float32))
	reg("float64", new(float64))
	reg("number", new(json.Number))
	reg("raw", new(json.RawMessage))
	reg("any", new(interface{}))
	reg("NStr", new(NStr))
	reg("NInt", new(NInt))
	reg("NI8", new(NI8))
	reg("NBool", new(NBool))
	reg("NF32", new(NF32))
	reg("NBytes", new(NBytes))
	reg("NBArr", new(NBArr))
	reg("NMap", new(NMap))
	reg("NIface", new(NIface))
	reg("bytes", new([]byte))
	reg("[]int", new([]int))
	reg("[]uint8s", new([][]uint8))
	reg("[]string", new([]string))
	reg("[]*int", new([]*int))
	reg("[]bool", new([]bool))
	reg("[]float64", new([]float64))
	reg("[][]string", new([][]string))
	reg("[]any", new([]interface{}))
	reg("[]raw", new([]json.RawMessage))
	reg("[]number", new([]json.Number))
	reg("[]map", new([]map[string]int))
	reg("[3]int", new([3]int))
	reg("[0]int", new([0]int))
	reg("[2]*Small", new([2]*Small))
	reg("[1]*int", new([1]*int))
	reg("[1]map", new([1]map[string]int))
	reg("[2]string", new([2]string))
	reg("[4]byte", new([4]byte))
	reg("map[string]int", new(map[string]int))
	reg("map[string]string", new(map[string]string))
	reg("map[string]any", new(map[string]interface{}))
	reg("map[string][]int", new(map[string][]int))
	reg("map[string]*Rec", new(map[string]*Rec))
	reg("map[string]raw", new(map[string]json.RawMessage))
	reg("map[int]string", new(map[int]string))
	reg("map[uint16]*bool", new(map[uint16]*bool))
	reg("map[NStr]Small", new(map[NStr]Small))
	reg("*int", new(*int))
	reg("**string", new(**string))
	reg("*[]int", new(*[]int))
	reg("*Small", new(*Small))
	reg("Empty", new(Empty))
	reg("One", new(One))
	reg("OneStr", new(OneStr))
	reg("OnePtr", new(OnePtr))
	reg("OneMap", new(OneMap))
	reg("Small", new(Small))
	reg("Inner", new(Inner))
	reg("Inner2", new(Inner2))
	reg("Embed", new(Embed))
	reg("Large", new(Large))
	reg("[]Large", new([]Large))
	reg("Quoted", new(Quoted))
	reg("OmitAll", new(OmitAll))
	reg("QuotedAll", new(QuotedAll))
	reg("[]Quoted1", new([]Quoted1))
	reg("EmbOne", new(EmbOne))
	reg("EmbDeep", new(EmbDeep))
	reg("EmbLarge", new(EmbLarge))
	reg("[]EmbLarge", new([]EmbLarge))
	reg("Conf", new(Conf))
	reg("OmitKinds", new(OmitKinds))
	reg("OmitCB", new(OmitCB))
	reg("KeyKinds", new(KeyKinds))
	reg("Rec", new(Rec))
	reg("[]Rec", new([]Rec))
	reg("MutA", new(MutA))
	reg("MutB", new(MutB))
	reg("Ptrs", new(Ptrs))
	reg("Bin", new(Bin))
	reg("Keys", new(Keys))
	reg("Tagged", new(Tagged))
	reg("Tagged1", new(Tagged1))
	reg("TaggedN", new(TaggedN))
	reg("TaggedL", new(TaggedL))
	reg("same1", same1())
	reg("same2", same2())
	reg("same3", same3())
	reg("same4", same4())
	reg("[]Small", new([]Small))
	reg("[]*Small", new([]*Small))
	reg("JVal", new(JVal))
	reg("JPtr", new(JPtr))
	reg("*JPtr", new(*JPtr))
	reg("[]JVal", new([]JVal))
	reg("[]*JPtr", new([]*JPtr))
	reg("map[string]JVal", new(map[string]JVal))
	reg("TVal", new(TVal))
	reg("TPtr", new(TPtr))
	reg("[]TVal", new([]TVal))
	reg("map[TKey]int", new(map[TKey]int))
	reg("map[TKey]JPtr", new(map[TKey]JPtr))
	reg("Mixed", new(Mixed))
	reg("[]Mixed", new([]Mixed))
	reg("Cust", new(Cust))
	reg("HoldCust", new(HoldCust))
	reg("[]CInt", new([]CInt))
	for _, t := range catalogue {
		decNames = append(decNames, t.name)
		encNames = append(encNames, t.name)
		if !t.cb {
			plainDec = append(plainDec, t.name)
		}
	}
	// types with values that cannot be made from a document
	for _, e := range []struct {
		n string
		v interface{}
	}{{"HasChan", new(HasChan)}, {"HasFunc", new(HasFunc)}, {"BadKey", new(BadKey)}, {"HasFloat", new(HasFloat)}, {"DynM", new(DynM)}, {"HoldIface", new(HoldIface)}, {"chan", new(chan int)}, {"wrapS", new(wrapS)}, {"wrapE", new(wrapE)}} {
		reg(e.n, e.v)
	}
	derive()
	registerTypes()
}

var derivedNames []string
var derivedBases int

// derive adds the types that can be built from a few interesting ones.
func derive() {
	type nt struct {
		n string
		t reflect.Type
	}
	var level []nt
	for _, v := range []interface{}{new(uint8), new(NByte), new(JByte), new(PByte), new(TByte), new(UByte), new(JDirS), new(TArr1), new(PDir), new(TDir),
		new(JVal), new(JPtr), new(JDir), new(TVal), new(TPtr), new(TKey), new(Cust), new(CInt), new(One), new(OnePtr), new(Empty), new(Rec), new(Small),
		new(interface{}), new(json.RawMessage), new(json.Number), new(XB), new(YB), new(NStr)} {
		t := reflect.TypeOf(v).Elem()
		level = append(level, nt{"d:" + t.String(), t})
	}
	derivedBases = len(level)
	str := reflect.TypeOf("")
	seen := map[reflect.Type]bool{}
	for lvl := 0; lvl < 3; lvl++ {
		var next []nt
		for _, b := range level {
			if !seen[b.t] {
				seen[b.t] = true
				reg(b.n, reflect.New(b.t).Interface())
				derivedNames = append(derivedNames, b.n)
			}
			if lvl == 2 {
				continue
			}
			n := b.n[2:]
			next = append(next,
				nt{"d:*" + n, reflect.PtrTo(b.t)},
				nt{"d:[]" + n, reflect.SliceOf(b.t)},
				nt{"d:[1]" + n, reflect.ArrayOf(1, b.t)},
				nt{"d:[2]" + n, reflect.ArrayOf(2, b.t)},
				nt{"d:map " + n, reflect.MapOf(str, b.t)},
				nt{"d:{" + n + "}", reflect.StructOf([]reflect.StructField{{Name: "A", Type: b.t}})},
				nt{"d:{" + n + ",}", reflect.StructOf([]reflect.StructField{{Name: "A", Type: b.t, Tag: `json:"a"`}, {Name: "B", Type: reflect.PtrTo(b.t)}, {Name: "C", Type: reflect.SliceOf(b.t), Tag: `json:",omitempty"`}})})
		}
		level = next
	}
}

// registerTypes gives a stable index to every type descriptor reachable from
// the catalogue (see simrt.MapKeys).
func registerTypes() {
	seen := map[reflect.Type]bool{}
	var visit func(t reflect.Type, ptr int)
	visit = func(t reflect.Type, ptr int) {
		if seen[t] {
			return
		}
		seen[t] = true
		type iface struct {
			tab  uintptr
			data uintptr
		}
		simrt.RegisterType((*iface)(unsafe.Pointer(&t)).data)
		if ptr < 3 {
			visit(reflect.PtrTo(t), ptr+1)
		}
		switch t.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Array:
			visit(t.Elem(), ptr)
		case reflect.Map:
			visit(t.Key(), ptr)
			visit(t.Elem(), ptr)
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				visit(t.Field(i).Type, ptr)
			}
		}
	}
	for _, t := range catalogue {
		visit(t.typ, 0)
	}
}

// ------------------------------------------------------------------- configs

// cfgSpec describes a pair of decoder/encoder configs.
type cfgSpec struct {
	Kind string `json:"kind"`
}

var cfgKinds = []string{"default", "case", "usenumber", "disallow", "custom", "custom2", "native", "tag", "onlytagged", "nohtml"}

func newDecCfg(kind string) *jzon.DecoderConfig {
	switch kind {
	case "default":
		return jzon.NewDecoderConfig(nil)
	case "case":
		return jzon.NewDecoderConfig(&jzon.DecoderOption{CaseSensitive: true})
	case "usenumber":
		return jzon.NewDecoderConfig(&jzon.DecoderOption{UseNumber: true})
	case "disallow":
		return jzon.NewDecoderConfig(&jzon.DecoderOption{DisallowUnknownFields: true})
	case "custom":
		return jzon.NewDecoderConfig(&jzon.DecoderOption{ValDecoders: map[reflect.Type]jzon.ValDecoder{
			reflect.TypeOf(Cust{}): &custDecoder{}, reflect.TypeOf(CInt(0)): &cintDecoder{}}})
	case "custom2":
		return jzon.NewDecoderConfig(&jzon.DecoderOption{ValDecoders: map[reflect.Type]jzon.ValDecoder{
			reflect.TypeOf(Cust{}): &custDecoder{mode: 1}}, UseNumber: true})
	case "native":
		return jzon.NewDecoderConfig(&jzon.DecoderOption{ValDecoders: map[reflect.Type]jzon.ValDecoder{
			reflect.TypeOf(int(0)): &cintDecoder{}, reflect.TypeOf(""): &strDecoder{}, reflect.TypeOf(false): &boolDecoder{},
			reflect.TypeOf([]string{}): &strsDecoder{}}})
	case "tag":
		return jzon.NewDecoderConfig(&jzon.DecoderOption{Tag: "jz"})
	case "onlytagged":
		return jzon.NewDecoderConfig(&jzon.DecoderOption{Tag: "jz", OnlyTaggedField: true})
	case "nohtml":
		return jzon.NewDecoderConfig(nil)
	}
	panic(kind)
}

func newEncCfg(kind string) *jzon.EncoderConfig {
	switch kind {
	case "default", "case", "usenumber", "disallow":
		return jzon.NewEncoderConfig(nil)
	case "custom":
		return jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: true, ValEncoders: map[reflect.Type]jzon.ValEncoder{
			reflect.TypeOf(Cust{}): &custEncoder{}, reflect.TypeOf(CInt(0)): &cintEncoder{}}})
	case "custom2":
		return jzon.NewEncoderConfig(&jzon.EncoderOption{ValEncoders: map[reflect.Type]jzon.ValEncoder{
			reflect.TypeOf(Cust{}): &custEncoder{mode: 1}}})
	case "native":
		return jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: true, ValEncoders: map[reflect.Type]jzon.ValEncoder{
			reflect.TypeOf(int(0)): &cintEncoder{}, reflect.TypeOf(""): &strEncoder{}, reflect.TypeOf(false): &boolEncoder{},
			reflect.TypeOf([]string{}): &strsEncoder{}}})
	case "tag":
		return jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: true, Tag: "jz"})
	case "onlytagged":
		return jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: true, Tag: "jz", OnlyTaggedField: true})
	case "nohtml":
		return jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: false})
	}
	panic(kind)
}
