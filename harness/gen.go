package main

import (
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"unicode/utf8"
)

// G generates random schemas and values.
type G struct {
	r *rand.Rand
	// schema options
	noMap, noCust, noOpt, noEnum, noLib, noFloat, noSafe bool
	budget                                               int // remaining elements of the value being generated
	refusal                                              int
	refX                                                 uint64
	evil, nilPtr, noNegZ, bare                           bool // bare: nil pointers anywhere
	sparse, dense                                        bool // zeros mostly, never
}

func newG(seed int64) *G { return &G{r: rand.New(rand.NewSource(seed))} }

func (g *G) one(n int) bool { return g.r.Intn(n) == 0 }
func (g *G) pick(xs ...string) string {
	return xs[g.r.Intn(len(xs))]
}

var scalarKs = []string{"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "bool", "str"}
var libKs = []string{"Uint128", "Int128", "Float128", "Int64", "Uint64", "JSONFloat64", "SafeString", "Bool", "HexBytes", "Varint16", "Varuint16", "Varint32", "Varuint32"}
var custKs = []string{"CustA", "CustK", "CustN", "CustO", "CustM", "CustR", "CustL", "CustD",
	"CsU8", "CsU32", "CsU64", "CsI8", "CsI16", "CsI32", "CsI64", "CsF32", "CsF64", "CsBl", "CsSt"}
var namedK = map[string]string{"u8": "NU8", "u16": "NU16", "u32": "NU32", "u64": "NU64", "i8": "NI8", "i16": "NI16", "i32": "NI32", "i64": "NI64", "f32": "NF32", "f64": "NF64", "str": "NStr", "bool": "NBl"}

// named: a named type of that kind, half of them with methods
func (g *G) named(k string) string {
	n := namedK[k]
	if n != "" && g.one(2) {
		n = "M" + n[1:]
	}
	return n
}

func (g *G) leaf() *Sch {
	switch x := g.r.Intn(10); {
	case x < 5:
		s := &Sch{K: g.pick(scalarKs...)}
		if g.one(3) {
			s.G = g.named(s.K)
		}
		return s
	case x < 6 && !g.noFloat:
		s := &Sch{K: g.pick("f32", "f64")}
		if g.one(3) {
			s.G = g.named(s.K)
		}
		return s
	case x < 9 && !g.noLib:
		for {
			k := g.pick(libKs...)
			if (k == "JSONFloat64" && g.noFloat) || (k == "SafeString" && g.noSafe) {
				continue
			}
			return &Sch{K: k}
		}
	case !g.noCust:
		return &Sch{K: g.pick(custKs...)}
	}
	return &Sch{K: g.pick(scalarKs...)}
}

func (g *G) key() *Sch {
	s := &Sch{K: g.pick("u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "str", "str", "Int64", "Uint64")}
	if n := g.named(s.K); n != "" && g.one(3) {
		s.G = n
	}
	return s
}

// sch: a random schema of at most the given depth, every element at least
// one byte wide.
func (g *G) sch(depth int) *Sch {
	if depth <= 0 {
		return g.leaf()
	}
	if g.one(14) {
		return g.box()
	}
	switch g.r.Intn(9) {
	case 0:
		return &Sch{K: "arr", N: g.r.Intn(4), E: g.sch(depth - 1)}
	case 1, 2:
		return &Sch{K: "slice", E: g.wideSch(depth - 1)}
	case 3:
		if g.noMap {
			return g.leaf()
		}
		return &Sch{K: "map", Key: g.key(), E: g.sch(depth - 1)}
	case 4:
		if !g.noCust && g.one(4) {
			return &Sch{K: "ptr", E: &Sch{K: "CustP"}}
		}
		return &Sch{K: "ptr", E: g.sch(depth - 1)}
	case 5, 6, 7:
		return g.structSch(depth)
	}
	return g.leaf()
}

// wideSch: never zero bytes wide
func (g *G) wideSch(depth int) *Sch {
	for {
		s := g.sch(depth)
		if minW(s) > 0 {
			return s
		}
	}
}

func minW(s *Sch) int {
	switch s.K {
	case "ptr":
		return minW(s.E)
	case "arr":
		if s.N == 0 {
			return 0
		}
		return minW(s.E)
	case "struct":
		if s.Enum {
			return 1
		}
		n := 0
		for _, f := range s.F {
			if f.Skip || f.Unexp {
				continue
			}
			if f.Opt {
				n++
			} else if f.T.K != "slice" {
				n += minW(f.T)
			}
		}
		return n
	case "iface", "unsup":
		return 0
	}
	return 1
}

// field names that a careless comparison confuses
var nearNames = []string{"Data", "DATA", "DAta", "Dat", "Data1", "Data11", "XData", "Données", "DonnÉes", "Data_", "D"}

func (s *Sch) has(name string) bool {
	for _, f := range s.F {
		if f.N == name {
			return true
		}
	}
	return false
}

// name: a name for the next field but k
func (g *G) name(s *Sch, k int) string {
	if g.one(4) {
		if n := g.pick(nearNames...); !s.has(n) {
			return n
		}
	}
	return "F" + strconv.Itoa(len(s.F)+k)
}

func (g *G) structSch(depth int) *Sch {
	if !g.noEnum && g.one(6) {
		return g.enumSch(depth)
	}
	s := &Sch{K: "struct", F: []Fld{}}
	n := g.r.Intn(5)
	for i := 0; i < n; i++ {
		f := Fld{N: g.name(s, 0), T: g.sch(depth - 1)}
		switch g.r.Intn(12) {
		case 0:
			f.Skip = true
		case 1:
			f.T = &Sch{K: "iface"}
		case 2:
			f.N = "f" + strconv.Itoa(len(s.F))
			f.T = &Sch{K: g.pick("u8", "u32", "str")}
			f.Unexp = true
		case 3: // linked pair
			cnt := Fld{N: "F" + strconv.Itoa(len(s.F)), T: &Sch{K: g.pick("u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "Varuint16", "Varint32", "Uint64", "Int64")}, Big: g.one(3)}
			lst := Fld{N: g.name(s, 1), T: &Sch{K: "slice", E: g.wideSch(depth - 1)}}
			if g.one(5) {
				lst.T = &Sch{K: "ptr", E: lst.T}
			}
			if !g.noOpt && lst.T.K == "slice" && g.one(6) {
				lst.Opt = true
			}
			cnt.So = lst.N
			s.F = append(s.F, cnt)
			f = lst
		}
		if !f.Skip && !f.Unexp && f.T.K != "iface" {
			if !g.noOpt && s.linked(f.N) == "" {
				switch g.r.Intn(6) {
				case 0:
					f.Opt = true
				case 1:
					f.Copt = true
				}
				if g.one(30) {
					f.Opt, f.Copt = true, true
				}
				// C-style options exist in Borsh only; elsewhere the field is
				// mandatory, so it must not be a pointer that may be nil
			}
			f.Big = g.one(4)
		}
		s.F = append(s.F, f)
	}
	return s
}

func (s *Sch) linked(name string) string {
	for _, f := range s.F {
		if f.So == name {
			return f.N
		}
	}
	return ""
}

func (g *G) enumSch(depth int) *Sch {
	s := &Sch{K: "struct", Enum: true, F: []Fld{{N: "Enum", T: &Sch{K: "u8", G: "BorshEnum"}}}}
	n := 1 + g.r.Intn(4)
	for i := 0; i < n; i++ {
		s.F = append(s.F, Fld{N: "V" + strconv.Itoa(i), T: g.sch(depth - 1)})
	}
	return s
}

// ---------------------------------------------------------------------

func (g *G) oneByte() uint64 {
	switch {
	case g.sparse && !g.one(3):
		return 0
	case g.dense:
		return uint64(1 + g.r.Intn(255))
	}
	return uint64(g.r.Intn(256))
}

func (g *G) rawInt(w int) []byte {
	b := make([]byte, w)
	if g.dense {
		for i := range b {
			b[i] = byte(1 + g.r.Intn(255))
		}
		return b
	}
	switch g.r.Intn(9) {
	case 0:
	case 1:
		b[0] = 1
	case 2:
		for i := range b {
			b[i] = 0xff
		}
	case 3:
		b[w-1] = 0x80
	case 4:
		for i := range b {
			b[i] = 0xff
		}
		b[w-1] = 0x7f
	case 5:
		b[g.r.Intn(w)] = byte(1) << uint(g.r.Intn(8))
	case 6:
		b[0] = byte(g.r.Intn(256))
	default:
		g.r.Read(b)
	}
	return b
}

var f32s = []uint32{0, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 1, 0x80000001, 0x7f7fffff, 0x00800000, 0x42280000, 0xc2280000}
var f64s = []uint64{0, 0x3ff0000000000000, 0xbff0000000000000, 0x7ff0000000000000, 0xfff0000000000000, 1, 0x8000000000000001, 0x7fefffffffffffff, 0x0010000000000000, 0x40093c0ca428c59f}

var strLens = []int{0, 0, 1, 1, 2, 3, 5, 8, 13, 40}
var longLens = []int{126, 127, 128, 129, 255, 256, 257}
var runes = []rune{'a', 'b', 'Z', '0', ' ', 0, 0x7f, 'é', 'ß', 'ж', '界', 0xFFFD, 0x10FFFF, '\U0001F600', 0x800, 0x7ff, 0xFEFF, 0xFFFE, 0xFFFF, 0xD7FF, 0xE000, 0x2028, 0x85, 0x301, 0x1FFFE, 0x10000}

func (g *G) strLen() int {
	if g.budget > 300 && g.one(25) {
		n := longLens[g.r.Intn(len(longLens))]
		g.budget -= n
		return n
	}
	return strLens[g.r.Intn(len(strLens))]
}

func (g *G) text() []byte {
	n := g.strLen()
	var out []byte
	ascii := g.one(2)
	for len(out) < n {
		if ascii {
			out = append(out, byte(32+g.r.Intn(95)))
		} else {
			var buf [4]byte
			k := utf8.EncodeRune(buf[:], g.rune())
			out = append(out, buf[:k]...)
		}
	}
	return out
}

// rune: a code point, now and then any at all
func (g *G) rune() rune {
	for g.one(3) {
		r := rune(g.r.Intn(0x110000))
		if g.one(2) {
			r = rune(g.r.Intn(0x3000))
		}
		if utf8.ValidRune(r) {
			return r
		}
	}
	return runes[g.r.Intn(len(runes))]
}

func (g *G) raw() []byte {
	b := make([]byte, g.strLen())
	g.r.Read(b)
	return b
}

func (g *G) count() int {
	if g.budget <= 0 {
		return g.r.Intn(2)
	}
	var n int
	switch g.r.Intn(8) {
	case 0:
		n = 0
	case 1:
		n = 1
	case 2, 3, 4:
		n = 2 + g.r.Intn(3)
	case 5, 6:
		n = g.r.Intn(9)
	default:
		n = g.r.Intn(20)
	}
	if n > g.budget {
		n = g.budget
	}
	g.budget -= n
	return n
}

// fill sets v (addressable, zero) to a random value of its schema; the value
// is in the round-trip domain of every format except that NaNs are left out
// and pointers are never nil unless optional.
func (g *G) fill(s *Sch, v reflect.Value) {
	if g.sparse && !g.one(3) && (widths[s.K] > 0 || s.K == "bool" || s.K == "Bool" || s.K == "str" || s.K == "SafeString" || s.K == "HexBytes") {
		return
	}
	switch s.K {
	case "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "Int64", "Uint64", "Varint16", "Varuint16", "Varint32", "Varuint32", "CustK", "Uint128", "Int128", "Float128",
		"CsU8", "CsU32", "CsU64", "CsI8", "CsI16", "CsI32", "CsI64":
		setVal(s, v, bs(g.rawInt(widths[s.K])))
	case "f32", "CsF32":
		b := f32s[g.r.Intn(len(f32s))]
		switch g.r.Intn(5) {
		case 0, 1:
			b = math.Float32bits(g.r.Float32() * 1000)
		case 2:
			if r := g.r.Uint32(); r&0x7f800000 != 0x7f800000 {
				b = r
			}
		case 3:
			if !g.noNegZ {
				b = 1 << 31
			}
		}
		setVal(s, v, le(uint64(b), 4))
	case "f64", "JSONFloat64", "CsF64":
		b := f64s[g.r.Intn(len(f64s))]
		switch g.r.Intn(5) {
		case 0, 1:
			b = math.Float64bits(g.r.NormFloat64() * 1e6)
		case 2:
			if r := g.r.Uint64(); r&0x7ff0000000000000 != 0x7ff0000000000000 {
				b = r
			}
		case 3:
			if !g.noNegZ {
				b = 1 << 63
			}
		}
		setVal(s, v, le(b, 8))
	case "bool", "Bool", "CsBl":
		v.SetBool(g.dense || g.one(2))
	case "CsSt":
		b := g.text()
		if len(b) > 255 {
			b = b[:255]
		}
		v.SetString(string(b))
	case "str":
		if g.one(3) {
			v.SetString(string(g.raw()))
		} else {
			v.SetString(string(g.text()))
		}
	case "SafeString":
		b := g.text()
		if g.one(4) {
			b = g.raw()
		} else if g.one(3) {
			// cut in the middle of a character
			b = append(b, "\u00e9\u4e2d\U0001F600"[:1+g.r.Intn(8)]...)
		}
		v.SetString(string(b))
	case "HexBytes":
		if !g.one(6) {
			v.SetBytes(g.raw())
		}
	case "arr":
		if s.E.flat() {
			for i := 0; i < v.Len(); i++ {
				v.Index(i).SetUint(g.oneByte())
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			g.fill(s.E, v.Index(i))
		}
	case "slice":
		if g.one(8) || s.E.stops() {
			return
		}
		var n int
		if s.E.flat() {
			n = g.strLen()
		} else {
			n = g.count()
		}
		g.fillSlice(s, v, n)
	case "map":
		if g.one(8) || s.E.stops() {
			return
		}
		v.Set(reflect.MakeMap(v.Type()))
		near := g.one(2)
		var last reflect.Value
		for n := g.count(); n > 0; n-- {
			k := reflect.New(v.Type().Key()).Elem()
			x := reflect.New(v.Type().Elem()).Elem()
			if near && last.IsValid() {
				g.nearKey(s.Key, k, last)
			} else {
				g.fill(s.Key, k)
			}
			last = k
			g.fill(s.E, x)
			v.SetMapIndex(k, x)
		}
	case "ptr":
		if s.E.stops() || g.bare && g.one(4) {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		g.fill(s.E, v.Elem())
	case "ifc":
		if g.one(4) {
			return
		}
		p := reflect.New(typeOf(s.E))
		g.fill(s.E, p.Elem())
		v.Set(p)
	case "struct":
		if s.Enum {
			tag := g.r.Intn(len(s.F) - 1)
			if s.F[tag+1].T.stops() {
				tag = 0
			}
			v.Field(0).SetUint(uint64(tag))
			for i := 1; i < len(s.F); i++ {
				if i == int(v.Field(0).Uint())+1 || g.one(4) {
					g.fill(s.F[i].T, v.Field(i))
				}
			}
			return
		}
		for i, f := range s.F {
			if f.Unexp {
				continue
			}
			if f.Opt && g.one(3) {
				continue // absent
			}
			if f.Copt && !f.Opt && f.T.K == "ptr" && g.one(3) && g.nilPtr {
				continue
			}
			if f.T.K == "unsup" {
				continue
			}
			if src := s.linked(f.N); src != "" {
				continue
			}
			z := g.noNegZ
			g.noNegZ = z || f.Opt || f.Copt
			g.fill(f.T, v.Field(i))
			g.noNegZ = z
		}
		for i, f := range s.F { // linked pairs
			if f.So == "" {
				continue
			}
			n := g.r.Intn(6)
			if g.budget > 200 && g.one(10) {
				n = 120
			}
			if !f.Skip {
				if f.T.K[0] == 'i' || f.T.K == "Int64" || f.T.K == "Varint32" || f.T.K == "Varint16" {
					v.Field(i).SetInt(int64(n))
				} else {
					v.Field(i).SetUint(uint64(n))
				}
			}
			for j, l := range s.F {
				if l.N != f.So {
					continue
				}
				t, x := l.T, v.Field(j)
				if t.K == "ptr" {
					x.Set(reflect.New(x.Type().Elem()))
					t, x = t.E, x.Elem()
				}
				z := g.noNegZ
				g.noNegZ = z || l.Opt || l.Copt
				g.fillSlice(t, x, n)
				g.noNegZ = z
			}
		}
	case "iface":
		if g.one(2) {
			v.Set(reflect.ValueOf(g.held()))
		}
	case "unsup":
		setUnsup(v)
	case "CustA":
		x := uint64(unle(g.rawInt(2)))
		if x == 0xDEAD || x == 0xBEEF {
			x = 7
		}
		if g.evil && g.one(3) {
			x = []uint64{0xDEAD, 0xBEEF}[g.r.Intn(2)]
		}
		str := g.text()
		if g.refX != 0 && g.one(2) {
			x = g.refX
			str = []byte("abcdefghijklmnop")[:g.refusal]
		}
		v.Field(0).SetUint(x)
		v.Field(1).SetString(string(str))
	case "CustP":
		x := unle(g.rawInt(2))
		if x>>8 == 0xDE || x>>8 == 0xBE {
			x = 7
		}
		if g.evil && g.one(3) {
			x = []uint64{0xDE00, 0xBE00}[g.r.Intn(2)] + uint64(g.r.Intn(256))
		}
		if g.refX != 0 && g.one(2) {
			x = g.refX&0xFF00 + uint64(g.refusal)
		}
		v.Field(0).SetUint(x)
	case "CustO":
		v.Field(0).SetUint(unle(g.rawInt(8)))
	case "CustR":
		for i := 0; i < v.Len(); i++ {
			v.Index(i).SetUint(g.oneByte())
		}
	case "CustL":
		if !g.one(6) {
			g.fillSlice(custLSch, v, g.r.Intn(4))
		}
	case "CustD":
		if !g.one(6) {
			v.Set(reflect.MakeMap(v.Type()))
			for n := g.r.Intn(4); n > 0; n-- {
				v.SetMapIndex(reflect.ValueOf(uint8(g.oneByte())), reflect.ValueOf(uint8(g.oneByte())))
			}
		}
	case "CustM":
		v.Field(0).SetUint(unle(g.rawInt(2)))
		v.Field(1).SetUint(unle(g.rawInt(8)))
	case "CustN":
		v.Field(0).SetUint(unle(g.rawInt(2)))
		if !g.one(4) {
			v.Field(1).SetBytes(g.raw())
		}
		v.Field(2).SetUint(unle(g.rawInt(4)))
	default:
		panic("fill: " + s.K)
	}
}

// held: what an interface field may hold (values that are neither pointers
// nor have a codec)
func (g *G) held() interface{} {
	hs := []interface{}{int(7), uint8(200), uint16(513), uint32(1 << 20), uint64(1) << 40, int8(-3), int16(-300), int32(-70000), int64(-5), true, float32(1.5), 2.5,
		"held", "", []byte{1, 2, 3}, []byte(nil), []uint16{4, 5}, [2]uint8{6, 7}, [2]string{"a", "b"}, map[string]uint8{"k": 1}, Inner{A: 1, B: 2, C: "c"}, NU16(9), NStr("n"), struct{}{}}
	return hs[g.r.Intn(len(hs))]
}

// nearKey: a key close to another one (next integers, same prefix)
func (g *G) nearKey(s *Sch, k, old reflect.Value) {
	k.Set(old)
	switch s.K {
	case "str":
		b := []byte(old.String())
		switch g.r.Intn(4) {
		case 0:
			b = append(b, byte([]int{0, 1, 'a', 0x7f, 0x80, 0xff}[g.r.Intn(6)]))
		case 1:
			if len(b) > 0 {
				b[len(b)-1] += byte(1 + g.r.Intn(3))
			}
		case 2:
			if len(b) > 0 {
				b[g.r.Intn(len(b))] ^= byte(1 << uint(g.r.Intn(8)))
			}
		default:
			if len(b) > 0 {
				b = b[:len(b)-1]
			}
		}
		k.SetString(string(b))
	case "u8", "u16", "u32", "u64", "Uint64", "i8", "i16", "i32", "i64", "Int64":
		b := valOf(s, old).(bs)
		w := len(b)
		n := unle(b)
		switch g.r.Intn(5) {
		case 0, 1:
			n += uint64(1 + g.r.Intn(3))
		case 2:
			n -= uint64(1 + g.r.Intn(3))
		case 3:
			n ^= 1 << uint(8*w-1)
		default:
			n ^= 1 << uint(g.r.Intn(8*w))
		}
		setVal(s, k, le(n, w))
	default:
		g.fill(s, k)
	}
}

func (g *G) fillSlice(s *Sch, v reflect.Value, n int) {
	v.Set(reflect.MakeSlice(v.Type(), n, n))
	if s.E.flat() {
		for i := 0; i < n; i++ {
			v.Index(i).SetUint(g.oneByte())
		}
		return
	}
	for i := 0; i < n; i++ {
		g.fill(s.E, v.Index(i))
	}
}

// value makes a random value (as an addressable reflect.Value).
func (g *G) value(s *Sch, budget int) reflect.Value {
	g.budget = budget
	v := reflect.New(typeOf(s)).Elem()
	g.fill(s, v)
	return v
}
