package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	bin "github.com/gagliardetto/binary"
)

// Sch mirrors the schema records of spec/Wire.tla.
type Sch struct {
	K    string `json:"k"`
	N    int    `json:"n"`
	E    *Sch   `json:"e,omitempty"`
	Key  *Sch   `json:"key,omitempty"`
	F    []Fld  `json:"f"`
	Enum bool   `json:"enum"`
	G    string `json:"g,omitempty"` // Go type, where it is a named one
}

type Fld struct {
	N     string `json:"n"`
	T     *Sch   `json:"t"`
	Skip  bool   `json:"skip"`
	Opt   bool   `json:"opt"`
	Copt  bool   `json:"copt"`
	Big   bool   `json:"big"`
	So    string `json:"so"`
	Ext   bool   `json:"ext"`
	Unexp bool   `json:"unexp"`
	Etag  bool   `json:"etag,omitempty"` // an enum tag that makes no enum
}

func (s *Sch) MarshalJSON() ([]byte, error) {
	m := map[string]interface{}{"k": s.K}
	if s.G != "" {
		m["g"] = s.G
	}
	switch s.K {
	case "arr":
		m["n"], m["e"] = s.N, s.E
	case "slice", "ptr", "ifc":
		m["e"] = s.E
	case "map":
		m["key"], m["e"] = s.Key, s.E
	case "struct":
		f := s.F
		if f == nil {
			f = []Fld{}
		}
		m["f"], m["enum"] = f, s.Enum
	}
	return json.Marshal(m)
}

func (s *Sch) String() string { b, _ := json.Marshal(s); return string(b) }

var widths = map[string]int{"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "f32": 4, "f64": 8,
	"Uint128": 16, "Int128": 16, "Float128": 16, "Int64": 8, "Uint64": 8, "JSONFloat64": 8,
	"Varint16": 2, "Varuint16": 2, "Varint32": 4, "Varuint32": 4, "CustK": 2,
	"CsU8": 1, "CsI8": 1, "CsI16": 2, "CsU32": 4, "CsI32": 4, "CsU64": 8, "CsI64": 8, "CsF32": 4, "CsF64": 8}

func (s *Sch) ukind() int {
	switch s.K {
	case "u8", "u16", "u32", "u64", "Uint64", "Varuint16", "Varuint32", "CustK", "CsU8", "CsU32", "CsU64":
		return widths[s.K]
	}
	return 0
}
func (s *Sch) flat() bool { return s.ukind() == 1 }

var kindNames = map[reflect.Kind]string{
	reflect.Uint8: "u8", reflect.Uint16: "u16", reflect.Uint32: "u32", reflect.Uint64: "u64",
	reflect.Int8: "i8", reflect.Int16: "i16", reflect.Int32: "i32", reflect.Int64: "i64",
	reflect.Float32: "f32", reflect.Float64: "f64", reflect.Bool: "bool", reflect.String: "str",
}
var builtin = map[string]reflect.Type{
	"u8": reflect.TypeOf(uint8(0)), "u16": reflect.TypeOf(uint16(0)), "u32": reflect.TypeOf(uint32(0)), "u64": reflect.TypeOf(uint64(0)),
	"i8": reflect.TypeOf(int8(0)), "i16": reflect.TypeOf(int16(0)), "i32": reflect.TypeOf(int32(0)), "i64": reflect.TypeOf(int64(0)),
	"f32": reflect.TypeOf(float32(0)), "f64": reflect.TypeOf(float64(0)), "bool": reflect.TypeOf(false), "str": reflect.TypeOf(""),
}

// schemaOf derives the schema of a Go type.
func schemaOf(t reflect.Type) *Sch {
	if n, ok := exact[t]; ok {
		return &Sch{K: n}
	}
	g := nameOf[t]
	if isRec[t] {
		if limit == 0 {
			return &Sch{K: "stop"}
		}
		limit--
		defer func(n int) { limit = n }(limit + 1)
	}
	if k, ok := kindNames[t.Kind()]; ok {
		return &Sch{K: k, G: g}
	}
	switch t.Kind() {
	case reflect.Array:
		return &Sch{K: "arr", N: t.Len(), E: schemaOf(t.Elem()), G: g}
	case reflect.Slice:
		return &Sch{K: "slice", E: schemaOf(t.Elem()), G: g}
	case reflect.Map:
		return &Sch{K: "map", Key: schemaOf(t.Key()), E: schemaOf(t.Elem()), G: g}
	case reflect.Ptr:
		return &Sch{K: "ptr", E: schemaOf(t.Elem())}
	case reflect.Interface:
		return &Sch{K: "iface"}
	case reflect.Struct:
		s := &Sch{K: "struct", G: g, F: []Fld{}}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			fl := Fld{N: f.Name, Unexp: f.PkgPath != ""}
			enum := strings.TrimSpace(f.Tag.Get("borsh_enum")) == "true"
			if strings.TrimSpace(f.Tag.Get("borsh_skip")) == "true" {
				fl.Skip = true
			}
			for _, w := range strings.Split(f.Tag.Get("bin"), " ") {
				switch {
				case w == "-" || w == "skip":
					fl.Skip = true
				case w == "big":
					fl.Big = true
				case w == "little":
					fl.Big = false
				case w == "optional" || w == "option":
					fl.Opt = true
				case w == "coption":
					fl.Copt = true
				case w == "binary_extension":
					fl.Ext = true
				case w == "enum":
					enum = true
				case strings.HasPrefix(w, "sizeof="):
					fl.So = w[len("sizeof="):]
				}
			}
			if i == 0 && enum && f.Type == named["BorshEnum"] {
				s.Enum = true
			}
			fl.T = schemaOf(f.Type)
			s.F = append(s.F, fl)
		}
		return s
	default:
		return &Sch{K: "unsup", G: t.Kind().String()}
	}
}

// typeOf builds the Go type a schema describes.
func typeOf(s *Sch) reflect.Type {
	if s.G != "" {
		if t, ok := named[s.G]; ok {
			return t
		}
	}
	if t, ok := exactByName[s.K]; ok {
		return t
	}
	if t, ok := builtin[s.K]; ok {
		return t
	}
	switch s.K {
	case "arr":
		return reflect.ArrayOf(s.N, typeOf(s.E))
	case "slice":
		return reflect.SliceOf(typeOf(s.E))
	case "map":
		return reflect.MapOf(typeOf(s.Key), typeOf(s.E))
	case "ptr":
		return reflect.PtrTo(typeOf(s.E))
	case "iface":
		return reflect.TypeOf((*interface{})(nil)).Elem()
	case "ifc": // an interface that holds a pointer to a type with its own codec
		if s.G != "" {
			return reflect.TypeOf((*bin.EncoderDecoder)(nil)).Elem()
		}
		return reflect.TypeOf((*interface{})(nil)).Elem()
	case "unsup":
		return named["int"]
	case "struct":
		var fs []reflect.StructField
		for i, f := range s.F {
			sf := reflect.StructField{Name: f.N, Type: typeOf(f.T)}
			if f.Unexp {
				sf.PkgPath = "main"
			}
			var tags []string
			extra := ""
			if f.Skip {
				switch i % 3 {
				case 0:
					tags = append(tags, "-")
				case 1:
					tags = append(tags, "skip")
				default:
					extra = ` borsh_skip:"true"`
				}
			}
			if f.Opt {
				tags = append(tags, []string{"optional", "option"}[i%2])
			}
			if f.Copt {
				tags = append(tags, "coption")
			}
			if f.Big {
				tags = append(tags, "big")
			} else if i%5 == 4 {
				tags = append(tags, "little")
			}
			if f.So != "" {
				tags = append(tags, "sizeof="+f.So)
			}
			if f.Ext {
				tags = append(tags, "binary_extension")
			}
			if i == 0 && s.Enum {
				sf.Type = named["BorshEnum"]
				if len(s.F)%2 == 0 {
					tags = append(tags, "enum")
				} else {
					extra += ` borsh_enum:"true"`
				}
			}
			if f.Etag {
				tags = append(tags, "enum")
			}
			if k := len(tags); k > 1 && (i+len(s.F))%2 == 0 { // in either order
				for a, b := 0, k-1; a < b; a, b = a+1, b-1 {
					tags[a], tags[b] = tags[b], tags[a]
				}
			}
			tag := ""
			if len(tags) > 0 {
				tag = fmt.Sprintf(`bin:"%s"`, strings.Join(tags, " "))
			}
			sf.Tag = reflect.StructTag(strings.TrimSpace(tag + extra))
			fs = append(fs, sf)
		}
		return reflect.StructOf(fs)
	}
	panic("typeOf: " + s.K)
}

// ---------------------------------------------------------------------
// Values.

type obj = map[string]interface{}
type list = []interface{}

// bs renders bytes as a JSON array of numbers.
type bs []byte

func (b bs) MarshalJSON() ([]byte, error) {
	out := make([]byte, 0, 4*len(b)+2)
	out = append(out, '[')
	for i, c := range b {
		if i > 0 {
			out = append(out, ',')
		}
		if c >= 100 {
			out = append(out, '0'+c/100)
		}
		if c >= 10 {
			out = append(out, '0'+c/10%10)
		}
		out = append(out, '0'+c%10)
	}
	return append(out, ']'), nil
}

func le(n uint64, w int) bs {
	out := make(bs, w)
	for i := 0; i < w && i < 8; i++ {
		out[i] = byte(n >> (8 * uint(i)))
	}
	return out
}

func unle(b []byte) (n uint64) {
	for i := len(b) - 1; i >= 0; i-- {
		n = n<<8 | uint64(b[i])
	}
	return
}

// the containers underlying CustL and CustD
var custLSch = &Sch{K: "slice", E: &Sch{K: "u16"}}
var custDSch = &Sch{K: "map", Key: &Sch{K: "u8"}, E: &Sch{K: "u8"}}

// valOf renders a Go value in the value notation of spec/Wire.tla.
func valOf(s *Sch, v reflect.Value) interface{} {
	switch s.K {
	case "u8", "u16", "u32", "u64", "Uint64", "Varuint16", "Varuint32", "CustK", "CsU8", "CsU32", "CsU64":
		return le(v.Uint(), widths[s.K])
	case "i8", "i16", "i32", "i64", "Int64", "Varint16", "Varint32", "CsI8", "CsI16", "CsI32", "CsI64":
		return le(uint64(v.Int()), widths[s.K])
	case "f32", "CsF32":
		// bits of the float32 itself: reading it through Float() would
		// quieten signalling NaNs
		return le(uint64(f32bits(v)), 4)
	case "f64", "JSONFloat64", "CsF64":
		return le(math.Float64bits(v.Float()), 8)
	case "bool", "Bool", "CsBl":
		return v.Bool()
	case "str", "SafeString", "CsSt":
		return bs(v.String())
	case "HexBytes":
		return obj{"nil": v.IsNil(), "s": bytesOf(v)}
	case "Uint128", "Int128", "Float128":
		return append(le(v.Field(0).Uint(), 8), le(v.Field(1).Uint(), 8)...)
	case "arr":
		return elemsOf(s.E, v)
	case "slice":
		return obj{"nil": v.IsNil(), "s": elemsOf(s.E, v)}
	case "map":
		type ent struct {
			key string
			e   list
		}
		var es []ent
		for _, k := range v.MapKeys() {
			kj := valOf(s.Key, k)
			kb, _ := json.Marshal(kj)
			es = append(es, ent{string(kb), list{kj, valOf(s.E, v.MapIndex(k))}})
		}
		sort.Slice(es, func(i, j int) bool { return es[i].key < es[j].key })
		m := list{}
		for _, e := range es {
			m = append(m, e.e)
		}
		return obj{"nil": v.IsNil(), "m": m}
	case "ptr":
		if v.IsNil() {
			return list{}
		}
		return list{valOf(s.E, v.Elem())}
	case "ifc":
		if v.IsNil() {
			return list{}
		}
		return list{valOf(s.E, v.Elem().Elem())}
	case "struct":
		out := list{}
		for i, f := range s.F {
			out = append(out, valOf(f.T, v.Field(i)))
		}
		return out
	case "iface":
		if v.IsNil() {
			return 0
		}
		return 1
	case "unsup":
		if v.IsZero() {
			return 0
		}
		return 1
	case "CustA":
		return list{le(v.Field(0).Uint(), 2), bs(v.Field(1).String())}
	case "CustP":
		return list{le(v.Field(0).Uint(), 2)}
	case "CustO":
		return list{le(v.Field(0).Uint(), 8)}
	case "CustR":
		return bytesOf(v)
	case "CustL":
		return valOf(custLSch, v)
	case "CustD":
		return valOf(custDSch, v)
	case "CustM":
		return list{le(v.Field(0).Uint(), 2), le(v.Field(1).Uint(), 8)}
	case "CustN":
		return list{le(v.Field(0).Uint(), 2), obj{"nil": v.Field(1).IsNil(), "s": bytesOf(v.Field(1))}, le(v.Field(2).Uint(), 4)}
	}
	panic("valOf: " + s.K)
}

func f32bits(v reflect.Value) uint32 {
	if v.CanAddr() {
		return *(*uint32)(v.Addr().UnsafePointer())
	}
	return math.Float32bits(float32(v.Float()))
}

func bytesOf(v reflect.Value) bs {
	out := make(bs, v.Len())
	for i := range out {
		out[i] = byte(v.Index(i).Uint())
	}
	return out
}

func elemsOf(e *Sch, v reflect.Value) interface{} {
	if e.flat() {
		return bytesOf(v)
	}
	out := list{}
	for i := 0; i < v.Len(); i++ {
		out = append(out, valOf(e, v.Index(i)))
	}
	return out
}

// setVal stores a value given in the notation of spec/Wire.tla.
func setVal(s *Sch, v reflect.Value, j interface{}) {
	switch s.K {
	case "u8", "u16", "u32", "u64", "Uint64", "Varuint16", "Varuint32", "CustK", "CsU8", "CsU32", "CsU64":
		v.SetUint(unle(jbytes(j)))
	case "i8", "i16", "i32", "i64", "Int64", "Varint16", "Varint32", "CsI8", "CsI16", "CsI32", "CsI64":
		b := jbytes(j)
		n := unle(b)
		sh := uint(64 - 8*len(b))
		v.SetInt(int64(n<<sh) >> sh)
	case "f32", "CsF32":
		*(*uint32)(v.Addr().UnsafePointer()) = uint32(unle(jbytes(j)))
	case "f64", "JSONFloat64", "CsF64":
		v.SetFloat(math.Float64frombits(unle(jbytes(j))))
	case "bool", "Bool", "CsBl":
		v.SetBool(j.(bool))
	case "str", "SafeString", "CsSt":
		v.SetString(string(jbytes(j)))
	case "HexBytes":
		o := j.(map[string]interface{})
		if o["nil"].(bool) {
			v.Set(reflect.Zero(v.Type()))
		} else {
			v.SetBytes(jbytes(o["s"]))
		}
	case "Uint128", "Int128", "Float128":
		b := jbytes(j)
		v.Field(0).SetUint(unle(b[:8]))
		v.Field(1).SetUint(unle(b[8:]))
	case "arr":
		setElems(s.E, v, j)
	case "slice":
		o := j.(map[string]interface{})
		if o["nil"].(bool) {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		n := len(jlist(o["s"]))
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		setElems(s.E, v, o["s"])
	case "map":
		o := j.(map[string]interface{})
		if o["nil"].(bool) {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		v.Set(reflect.MakeMap(v.Type()))
		for _, e := range jlist(o["m"]) {
			kv := jlist(e)
			k := reflect.New(v.Type().Key()).Elem()
			x := reflect.New(v.Type().Elem()).Elem()
			setVal(s.Key, k, kv[0])
			setVal(s.E, x, kv[1])
			v.SetMapIndex(k, x)
		}
	case "ptr":
		l := jlist(j)
		if len(l) == 0 {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		setVal(s.E, v.Elem(), l[0])
	case "ifc":
		l := jlist(j)
		if len(l) == 0 {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		p := reflect.New(typeOf(s.E))
		setVal(s.E, p.Elem(), l[0])
		v.Set(p)
	case "struct":
		l := jlist(j)
		for i, f := range s.F {
			if !f.Unexp {
				setVal(f.T, v.Field(i), l[i])
			}
		}
	case "iface":
		if jint(j) != 0 {
			v.Set(reflect.ValueOf(int(7)))
		}
	case "unsup":
		if jint(j) != 0 {
			setUnsup(v)
		}
	case "CustA":
		l := jlist(j)
		v.Field(0).SetUint(unle(jbytes(l[0])))
		v.Field(1).SetString(string(jbytes(l[1])))
	case "CustP", "CustO":
		v.Field(0).SetUint(unle(jbytes(jlist(j)[0])))
	case "CustR":
		setElems(&Sch{K: "u8"}, v, j)
	case "CustL":
		setVal(custLSch, v, j)
	case "CustD":
		setVal(custDSch, v, j)
	case "CustM":
		l := jlist(j)
		v.Field(0).SetUint(unle(jbytes(l[0])))
		v.Field(1).SetUint(unle(jbytes(l[1])))
	case "CustN":
		l := jlist(j)
		v.Field(0).SetUint(unle(jbytes(l[0])))
		o := l[1].(map[string]interface{})
		if !o["nil"].(bool) {
			v.Field(1).SetBytes(jbytes(o["s"]))
		}
		v.Field(2).SetUint(unle(jbytes(l[2])))
	default:
		panic("setVal: " + s.K)
	}
}

func setUnsup(v reflect.Value) {
	switch v.Kind() {
	case reflect.Int:
		v.SetInt(5)
	case reflect.Uint, reflect.Uintptr:
		v.SetUint(5)
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(complex(1, 2))
	case reflect.Chan:
		v.Set(reflect.MakeChan(v.Type(), 1))
	case reflect.Func:
		v.Set(reflect.ValueOf(func() {}))
	case reflect.UnsafePointer:
		v.SetPointer(unsafe.Pointer(new(int)))
	}
}

func setElems(e *Sch, v reflect.Value, j interface{}) {
	if e.flat() {
		for i, c := range jbytes(j) {
			v.Index(i).SetUint(uint64(c))
		}
		return
	}
	for i, x := range jlist(j) {
		setVal(e, v.Index(i), x)
	}
}

func jlist(j interface{}) []interface{} {
	switch x := j.(type) {
	case []interface{}:
		return x
	case bs:
		out := make([]interface{}, len(x))
		for i, c := range x {
			out[i] = float64(c)
		}
		return out
	case map[string]interface{}: // TLC may write an empty function as {}
		return nil
	case nil:
		return nil
	}
	panic(fmt.Sprintf("jlist %T", j))
}
func jint(j interface{}) int {
	switch x := j.(type) {
	case float64:
		return int(x)
	case int:
		return x
	}
	return 0
}
func jbytes(j interface{}) []byte {
	if b, ok := j.(bs); ok {
		return append([]byte{}, b...)
	}
	l := jlist(j)
	out := make([]byte, len(l))
	for i, x := range l {
		out[i] = byte(jint(x))
	}
	return out
}

var encodings = map[string]bin.Encoding{"bin": bin.EncodingBin, "c16": bin.EncodingCompactU16, "borsh": bin.EncodingBorsh}
var modes = []string{"bin", "c16", "borsh"}
