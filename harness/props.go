package main

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"sort"

	bin "github.com/gagliardetto/binary"
)

var props map[string]func(*X)

func init() {
	props = map[string]func(*X){
		"P01": p01, "P02": wire("borsh"), "P03": wire("bin"), "P04": wire("c16"), "P05": p05, "P06": p06, "P07": p07, "P08": p08,
		"P09": p09, "P10": p10, "P11": p11, "P12": p12, "P13": p13, "P14": p14, "P15": p15, "P16": p16, "P17": p17, "P18": p18,
		"P19": p19, "P20": p20, "P21": p21, "P22": p22, "P23": p23, "P24": p24, "P25": p25, "P26": p26, "P27": p27, "P28": p28,
		"P29": p29, "P30": p30, "P31": p31, "P32": p32, "P27race": p27race,
	}
}

var none reflect.Value

// pick chooses n of the scenarios (all of them in the thorough tier, up to
// thorough when that is positive).
func (x *X) pick(quick, thorough int) []Scen {
	n := quick
	if x.thorough() {
		n = thorough
	}
	if n <= 0 || n >= len(x.scen) {
		return x.scen
	}
	idx := rand.New(rand.NewSource(subSeed(x.seed, "pick", x.prop))).Perm(len(x.scen))[:n]
	sort.Ints(idx)
	out := make([]Scen, n)
	for i, j := range idx {
		out[i] = x.scen[j]
	}
	return out
}

func (sc Scen) value() reflect.Value {
	v := reflect.New(typeOf(sc.T)).Elem()
	setVal(sc.T, v, sc.V)
	return v
}

var catNames = func() (out []string) {
	for n := range catalogue {
		out = append(out, n)
	}
	sort.Strings(out)
	return
}()

// anySch: a random type or one of the catalogue
func (g *G) anySch() *Sch {
	if g.one(5) {
		return schemaOf(catalogue[catNames[g.r.Intn(len(catNames))]])
	}
	if g.one(10) {
		return g.twin()
	}
	return g.sch(1 + g.r.Intn(3))
}

func (g *G) mode() string { return modes[g.r.Intn(3)] }

// random runs n sessions
func (x *X) random(n int, f func(s *Sess, g *G)) {
	for i := 0; i < n; i++ {
		x.session(f)
	}
}

// ---------------------------------------------------------------------

func p01(x *X) {
	for _, sc := range x.pick(1200, 0) {
		x.session(func(s *Sess, g *G) {
			for _, m := range modes {
				s.rt1(g, m, sc.T, sc.value())
			}
		})
	}
	x.random(x.size(500, 20000), func(s *Sess, g *G) {
		t := g.anySch()
		for k := 0; k < 2; k++ {
			s.rt1(g, g.mode(), t, g.value(t, 30))
		}
	})
	for _, n := range catNames {
		t := schemaOf(catalogue[n])
		for _, m := range modes {
			x.session(func(s *Sess, g *G) {
				for k := 0; k < x.size(2, 40); k++ {
					s.rt1(g, m, t, g.value(t, 20))
				}
			})
		}
	}
	x.recursive(x.size(12, 300), func(s *Sess, g *G, t *Sch, deep int) {
		m := g.mode()
		if t.G == "Expr" {
			m = "borsh" // elsewhere it is a struct that contains itself
		}
		s.rt1(g, m, t, g.value(t, 12))
	})
	x.random(x.size(60, 3000), func(s *Sess, g *G) { s.rep(g, g.mode(), "plain") })
	x.reps("plain", modes...)
	x.deeps(2, []int{20, 33, 65, 101, 129, 257, 513, 1025, 4000}, modes...)
	for _, n := range longCounts(x) {
		for _, m := range modes {
			x.session(func(s *Sess, g *G) { s.long(m, n, "u8", g) })
			x.session(func(s *Sess, g *G) { s.long(m, n, "str", g) })
		}
	}
	for _, m := range modes {
		x.session(func(s *Sess, g *G) { s.long(m, 1<<20+9, g.pick("u8", "u16"), g) })
		x.session(func(s *Sess, g *G) { s.long(m, 1<<24+9, g.pick("str", "HexBytes", "u8"), g) })
	}
}

func longCounts(x *X) []int {
	base := []int{127, 128, 255, 256, 16383, 16384, 65535, 65536}
	if x.thorough() {
		for i := 7; i <= 17; i++ {
			base = append(base, 1<<uint(i)-1, 1<<uint(i), 1<<uint(i)+1)
		}
	}
	return base
}

// long sequences: n elements of kind k
func (s *Sess) long(m string, n int, k string, g *G) {
	var t reflect.Type
	w := 0
	switch k {
	case "str":
		t, w = reflect.TypeOf(""), 1
	case "map":
		t, w = reflect.TypeOf(map[uint32]uint8{}), 5
	case "i16":
		t, w = reflect.TypeOf([]int16{}), 2
	case "HexBytes":
		t, w = reflect.TypeOf(bin.HexBytes{}), 1
	case "SafeString":
		t, w = reflect.TypeOf(bin.SafeString("")), 1
	default:
		e := builtin[k]
		t, w = reflect.SliceOf(e), widths[k]
	}
	v := reflect.New(t).Elem()
	body := make([]byte, n*w)
	switch t.Kind() {
	case reflect.String:
		for i := range body {
			body[i] = byte(32 + (i*7+n)%90)
		}
		v.SetString(string(body))
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
		for i := 0; i < n; i++ {
			v.SetMapIndex(reflect.ValueOf(uint32(i)), reflect.ValueOf(uint8(i*3)))
			copy(body[5*i:], le(uint64(i), 4))
			body[5*i+4] = byte(i * 3)
		}
	default:
		v.Set(reflect.MakeSlice(t, n, n))
		for i := 0; i < n; i++ {
			x := uint64(i)*2654435761 + uint64(n)
			copy(body[w*i:], le(x, w))
			if t.Elem().Kind() == reflect.Int16 {
				v.Index(i).SetInt(int64(int16(x)))
			} else {
				v.Index(i).SetUint(unle(le(x, w)))
			}
		}
	}
	out, er := encode(g.r.Intn(12), m, v)
	o := obj{"er": er, "head": bs{}, "total": len(out), "body": false, "dr": "none", "same": false, "pos": 0}
	if er == "ok" {
		if len(out) >= len(body) {
			h := len(out) - len(body)
			if h < 20 {
				o["head"] = bs(out[:h])
			}
			o["body"] = string(out[h:]) == string(body) || (t.Kind() == reflect.Map && m != "borsh")
		}
		dst := reflect.New(t)
		d, dr := decodeAt(g.r.Intn(4), m, out, 0, dst)
		o["dr"], o["pos"] = dr, clamp(int64(d.Position()))
		o["same"] = dr == "ok" && reflect.DeepEqual(dst.Elem().Interface(), v.Interface())
	}
	s.add("long", obj{"m": m, "k": k, "n": n, "w": w}, o)
}

// decoding of arbitrary and damaged bytes, and of the exact encoding at an
// offset with data behind it
func (s *Sess) decVariations(g *G, m string, t *Sch, good []byte, n int) {
	if floatKeys(t) {
		return
	}
	for k := 0; k < n; k++ {
		switch g.r.Intn(5) {
		case 0:
			pre, post := g.raw(), g.raw()
			s.dec1(g, m, t, append(append(append([]byte{}, pre...), good...), post...), len(pre), none)
		case 1:
			s.dec1(g, m, t, g.fuzzBytes(), 0, none)
		default:
			s.dec1(g, m, t, g.mutate(good), 0, none)
		}
	}
}

func floatKeys(t *Sch) bool {
	switch t.K {
	case "map":
		return t.Key.K == "f32" || t.Key.K == "f64" || t.Key.K == "JSONFloat64" || t.Key.K == "CsF32" || t.Key.K == "CsF64" || floatKeys(t.E)
	case "ptr", "arr", "slice":
		return floatKeys(t.E)
	case "struct":
		for _, f := range t.F {
			if floatKeys(f.T) {
				return true
			}
		}
	}
	return false
}

func wire(m string) func(*X) {
	return func(x *X) {
		for _, sc := range x.pick(900, 0) {
			x.session(func(s *Sess, g *G) {
				out := s.enc1(g, m, sc.T, sc.value())
				if out == nil {
					return
				}
				if !floatKeys(sc.T) {
					s.dec1(g, m, sc.T, out, 0, none)
				}
				s.decVariations(g, m, sc.T, out, 2)
			})
		}
		x.random(x.size(500, 20000), func(s *Sess, g *G) {
			t := g.anySch()
			g.bare = m == "borsh" && g.one(4)
			v := g.value(t, 25)
			g.bare = false
			out := s.enc1(g, m, t, v)
			if out != nil {
				s.decVariations(g, m, t, out, 3)
			}
		})
		x.recursive(x.size(15, 300), func(s *Sess, g *G, t *Sch, deep int) {
			if t.G == "Expr" && m != "borsh" {
				return
			}
			out := s.enc1(g, m, t, g.value(t, 12))
			if out != nil {
				s.dec1(g, m, t, out, 0, none)
			}
			for k := 0; k < 2; k++ {
				b := g.mutate(out)
				if len(b) >= deep {
					b = b[:deep-1]
				}
				s.dec1(g, m, t, b, 0, none)
			}
			b := deepBytes(g.r.Intn(9), deep-1)
			b[g.r.Intn(len(b))] = byte(g.r.Intn(4))
			s.dec1(g, m, t, b, 0, none)
		})
		x.random(x.size(50, 2000), func(s *Sess, g *G) { s.rep(g, m, "plain") })
		x.reps("plain", m)
		// lengths around the prefix boundaries
		for _, n := range longCounts(x) {
			for _, k := range []string{"u8", "u16", "i16", "str", "HexBytes", "SafeString", "map"} {
				x.session(func(s *Sess, g *G) { s.long(m, n, k, g) })
			}
		}
		if m != "c16" { // a count that does not fit is an error there
			for _, k := range []string{"u8", "u16", "i16", "str", "HexBytes", "SafeString", "map"} {
				x.session(func(s *Sess, g *G) { s.long(m, 1<<20+9, k, g) })
				if k != "map" && k[1:] != "16" {
					x.session(func(s *Sess, g *G) { s.long(m, 1<<24+9, k, g) })
				}
			}
		}
		x.deeps(2, []int{20, 33, 65, 101, 129, 257, 513, 1025}, m)
		// NaNs, signed zeros and other floats
		x.random(x.size(40, 400), func(s *Sess, g *G) {
			for _, k := range []string{"f32", "f64", "JSONFloat64"} {
				t := &Sch{K: k}
				w := widths[k]
				b := g.rawInt(w)
				if g.one(2) { // NaN
					b[w-1] = b[w-1]&0x80 | 0x7f
					b[w-2] = 0xf8 | b[w-2]
				}
				v := reflect.New(typeOf(t)).Elem()
				setVal(t, v, bs(b))
				s.enc1(g, m, t, v)
				s.dec1(g, m, t, append(b, 1, 2), 0, none)
			}
		})
	}
}

// ---------------------------------------------------------------------

func p09(x *X) {
	one := func(s *Sess, g *G, m string, t *Sch, v reflect.Value) {
		val := valOf(t, v)
		out, r := encode(g.r.Intn(12), m, v)
		o := obj{"r": r, "n": len(out)}
		cuts := []string{}
		if r == "ok" && len(out) <= 400 {
			for k := range out {
				dst := reflect.New(v.Type())
				// a copy of exactly this capacity: nothing behind the cut
				_, dr := decodeAt(k, m, append(make([]byte, 0, k), out[:k]...), 0, dst)
				if dr == "ok" && g.one(8) {
					dr = try(func() error { return unmarshal(m, reflect.New(v.Type()).Interface(), out[:k:k]) })
				}
				cuts = append(cuts, dr)
			}
		} else if r == "ok" {
			return
		}
		o["cuts"] = cuts
		s.add("trunc", obj{"m": m, "t": t, "v": val}, o)
	}
	x.random(x.size(30, 1500), func(s *Sess, g *G) { s.rep(g, g.mode(), "cuts") })
	for _, sc := range x.pick(1200, 0) {
		if hasExt(sc.T) {
			continue
		}
		x.session(func(s *Sess, g *G) {
			for _, m := range modes {
				one(s, g, m, sc.T, sc.value())
			}
		})
	}
	x.random(x.size(500, 20000), func(s *Sess, g *G) {
		t := g.anySch()
		if hasExt(t) {
			return
		}
		one(s, g, g.mode(), t, g.value(t, 20))
	})
}

func hasExt(t *Sch) bool {
	switch t.K {
	case "map", "ptr", "arr", "slice":
		return hasExt(t.E)
	case "struct":
		for _, f := range t.F {
			if f.Ext || hasExt(f.T) {
				return true
			}
		}
	}
	return false
}

func p10(x *X) {
	one := func(s *Sess, g *G, m string, ts []*Sch, vs []reflect.Value) {
		w := &plain{}
		o := obj{}
		vals := list{}
		ends := []int{}
		var e *bin.Encoder
		r := try(func() error { e = newEnc(m, w, g.r.Intn(2)); return nil })
		for i := range vs {
			vals = append(vals, obj{"t": ts[i], "v": valOf(ts[i], vs[i])})
			arg := vs[i].Interface()
			if g.one(2) {
				arg = vs[i].Addr().Interface()
			}
			if r == "ok" {
				r = try(func() error { return e.Encode(arg) })
			}
			ends = append(ends, len(w.got))
		}
		tail := g.raw()
		if g.one(4) {
			tail = nil
		} else if g.one(4) {
			tail = append([]byte{byte(0x80 + g.r.Intn(64))}, tail...)
		}
		o["r"], o["ends"] = r, ends
		decs := list{}
		d := newDec(m, append(append([]byte{}, w.got...), tail...), g.r.Intn(2))
		for i := range vs {
			dst := reflect.New(vs[i].Type())
			dr := try(func() error { return d.Decode(dst.Interface()) })
			decs = append(decs, obj{"r": dr, "pos": clamp(int64(d.Position())), "v": orEmpty(dr, func() interface{} { return valOf(ts[i], dst.Elem()) })})
		}
		o["decs"] = decs
		dst := reflect.New(vs[0].Type())
		d2, dr := decodeAt(g.r.Intn(4), m, append([]byte{}, w.got[:ends[0]]...), 0, dst)
		o["alone"] = obj{"r": dr, "pos": clamp(int64(d2.Position())), "v": orEmpty(dr, func() interface{} { return valOf(ts[0], dst.Elem()) })}
		s.add("frame", obj{"m": m, "vs": vals, "tail": bs(tail)}, o)
	}
	scen := x.pick(1200, 0)
	for i, sc := range scen {
		if hasExt(sc.T) {
			continue
		}
		x.session(func(s *Sess, g *G) {
			for _, m := range modes {
				ts, vs := []*Sch{sc.T}, []reflect.Value{sc.value()}
				for k := g.r.Intn(3); k > 0; k-- {
					o := scen[(i+7*k+g.r.Intn(len(scen)))%len(scen)]
					if !hasExt(o.T) {
						ts, vs = append(ts, o.T), append(vs, o.value())
					}
				}
				one(s, g, m, ts, vs)
			}
		})
	}
	x.random(x.size(400, 15000), func(s *Sess, g *G) {
		var ts []*Sch
		var vs []reflect.Value
		for k := 1 + g.r.Intn(4); k > 0; k-- {
			t := g.anySch()
			if hasExt(t) {
				continue
			}
			ts, vs = append(ts, t), append(vs, g.value(t, 12))
		}
		if len(ts) > 0 {
			one(s, g, g.mode(), ts, vs)
		}
	})
}

// ---------------------------------------------------------------------

// p07: totality on hostile input
func p07(x *X) {
	one := func(s *Sess, g *G, m string, t *Sch, data []byte) {
		dst := reflect.New(typeOf(t))
		d, r := decodeAt(g.r.Intn(4), m, data, 0, dst)
		s.add("tot", obj{"m": m, "t": t.String(), "data": hexs(data), "n": len(data)}, obj{"r": r, "pos": clamp(int64(d.Position())), "rem": clamp(int64(d.Remaining()))})
	}
	for _, sc := range x.pick(1200, 0) {
		x.session(func(s *Sess, g *G) {
			for _, m := range modes {
				out, _ := encode(0, m, sc.value())
				for k := 0; k < x.size(2, 6); k++ {
					one(s, g, m, sc.T, g.mutate(out))
				}
				one(s, g, m, sc.T, g.hostile())
			}
		})
	}
	x.random(x.size(1000, 40000), func(s *Sess, g *G) {
		t := g.anySch()
		m := g.mode()
		out, _ := encode(0, m, g.value(t, 20))
		for k := 0; k < 4; k++ {
			one(s, g, m, t, g.mutate(out))
		}
		one(s, g, m, t, g.hostile())
		one(s, g, m, t, g.fuzzBytes())
	})
	// deeply nested data
	for _, name := range recNames {
		for _, n := range deepLens {
			x.session(func(s *Sess, g *G) {
				for _, m := range modes {
					for how := 0; how < 9; how++ {
						if n > 100000 && !x.thorough() && how > 2 && !g.one(3) {
							continue
						}
						data := deepBytes(how, n)
						d, r := decodeAt(0, m, data, 0, reflect.New(recTypes[name]))
						s.add("tot", obj{"m": m, "t": name, "data": hexs(data[:20]), "n": n}, obj{"r": r, "pos": clamp(int64(d.Position())), "rem": clamp(int64(d.Remaining()))})
					}
				}
			})
		}
	}
	x.random(x.size(400, 10000), func(s *Sess, g *G) {
		data := g.hostile()
		s.newD(0, g.mode(), data, g.r.Intn(2))
		for k := 0; k < 12; k++ {
			o := s.dec[0]
			a := g.readArg(readOps[g.r.Intn(len(readOps))], o.d.Remaining(), o.d.Len())
			r := try(func() error { _, err := doRead(o.d, a); return err })
			s.add("tot", obj{"a": a.readJSON(), "n": len(data)}, obj{"r": r, "pos": clamp(int64(o.d.Position())), "rem": clamp(int64(o.d.Remaining()))})
			if r == "panic" {
				break
			}
			if g.one(6) {
				m := g.mode()
				o.d.SetEncoding(encodings[m])
			}
		}
	})
}

var deepLens = []int{100, 3000, 9990, 10010, 20500, 60000, 300000, 3000000}

func hexs(b []byte) string {
	const h = "0123456789abcdef"
	out := make([]byte, 0, 2*len(b))
	for _, c := range b {
		out = append(out, h[c>>4], h[c&15])
	}
	return string(out)
}

// edgeCount: a count next to a power of two, as the encodings write it
func edgeCount(k int) []byte {
	edges := []uint64{1 << 7, 1 << 14, 1 << 15, 1 << 16, 1 << 21, 1 << 28, 1 << 31, 1 << 32, 1 << 33, 1 << 63}
	n := edges[k/3%len(edges)] + uint64(k%3) - 1
	if k/30%2 == 0 {
		return le(n, 4)
	}
	var b [10]byte
	return append([]byte{}, b[:binary.PutUvarint(b[:], n)]...)
}

// hostile: bytes that claim large counts and lengths
func (g *G) hostile() []byte {
	var b []byte
	for k := 1 + g.r.Intn(4); k > 0; k-- {
		switch g.r.Intn(10) {
		case 8:
			b = append(b, edgeCount(g.r.Intn(60))...)
		case 0:
			b = append(b, le(uint64(1)<<uint(g.r.Intn(32)), 4)...)
		case 1:
			b = append(b, 0xff, 0xff, 0xff, 0xff, byte(g.r.Intn(256)))
		case 2:
			b = append(b, 0xff, 0xff, 0x03)
		case 3:
			b = append(b, le(uint64(1)<<uint(g.r.Intn(64)), 8)...)
		case 4:
			for i := 0; i < 9; i++ {
				b = append(b, 0xff)
			}
			b = append(b, byte(g.r.Intn(3)))
		case 5:
			b = append(b, le(^uint64(0)-uint64(g.r.Intn(8)), 8)...)
		case 6:
			b = append(b, 0x80, 0x80, 0x80, 0x80, byte(1+g.r.Intn(15)))
		default:
			b = append(b, byte(g.r.Intn(4)))
		}
		if g.one(3) {
			b = append(b, g.raw()...)
		}
	}
	return b
}

// ---------------------------------------------------------------------

type wideElem struct {
	A uint64
	B [6]uint64
	S string
}

var allocTypes = []reflect.Type{
	reflect.TypeOf([]byte{}), reflect.TypeOf([]uint16{}), reflect.TypeOf([]uint32{}), reflect.TypeOf([]uint64{}), reflect.TypeOf([]int32{}),
	reflect.TypeOf([]bool{}), reflect.TypeOf([]string{}), reflect.TypeOf([][]byte{}), reflect.TypeOf([]bin.Uint128{}), reflect.TypeOf([]wideElem{}),
	reflect.TypeOf([]*wideElem{}), reflect.TypeOf(map[uint32]wideElem{}), reflect.TypeOf(map[string]uint64{}), reflect.TypeOf(map[uint8]uint8{}),
	reflect.TypeOf(""), reflect.TypeOf(bin.SafeString("")), reflect.TypeOf(bin.HexBytes{}), reflect.TypeOf([][4]uint64{}), reflect.TypeOf([]NU8{}),
	reflect.TypeOf([]float64{}), reflect.TypeOf([]CustA{}), reflect.TypeOf([]bin.Varint32{}), reflect.TypeOf([]int8{}), reflect.TypeOf([]NU64{}),
	reflect.TypeOf([]map[uint8]uint8{}), reflect.TypeOf(struct {
		A uint8
		B []wideElem
		C []uint64
	}{}), reflect.TypeOf(struct {
		N uint32 `bin:"sizeof=B"`
		B []wideElem
	}{}), reflect.TypeOf(struct {
		N uint64 `bin:"sizeof=B"`
		B []uint64
	}{}), reflect.TypeOf(struct {
		N int32 `bin:"sizeof=B"`
		B []byte
	}{}), reflect.TypeOf(struct {
		A *[]uint64 `bin:"optional"`
		B *[]uint64 `bin:"coption"`
	}{}), reflect.TypeOf(struct {
		Enum bin.BorshEnum `borsh_enum:"true"`
		A    []uint64
		B    map[uint16]wideElem
	}{}), reflect.TypeOf([16]uint64{}), reflect.TypeOf([2][]uint64{}),
}

func countPrefix(m string, n uint64) []byte {
	switch m {
	case "borsh":
		return le(n, 4)
	case "c16":
		b := []byte{}
		for n > 65535 {
			n = 65535
		}
		for n >= 128 {
			b = append(b, byte(n)|0x80)
			n >>= 7
		}
		return append(b, byte(n))
	}
	b := []byte{}
	for n >= 128 {
		b = append(b, byte(n)|0x80)
		n >>= 7
	}
	return append(b, byte(n))
}

func allocKB(f func()) int {
	best := uint64(1) << 62
	for i := 0; i < 3; i++ {
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		f()
		runtime.ReadMemStats(&b)
		if d := b.TotalAlloc - a.TotalAlloc; d < best {
			best = d
		}
	}
	return int(best / 1024)
}

func p08(x *X) {
	one := func(s *Sess, m string, t reflect.Type, data []byte) {
		size := int(t.Size())
		// every call allocates; the first also fills reflection caches
		try(func() error { return newDec(m, data[:0], 0).Decode(reflect.New(t).Interface()) })
		r := "ok"
		kb := allocKB(func() {
			r = try(func() error { return newDec(m, data, 0).Decode(reflect.New(t).Interface()) })
		})
		s.add("alloc", obj{"m": m, "t": t.String(), "data": hexs(data[:min(len(data), 64)]), "n": len(data), "size": size}, obj{"r": r, "kb": clamp(int64(kb))})
	}
	counts := []uint64{1 << 20, 1<<20 + 3, 1 << 24, 1<<24 - 1, 65535, 50000}
	if x.thorough() {
		counts = append(counts, 1<<22, 1<<25, 1<<26, 1<<17, 1<<18, 30000)
	}
	for _, t := range allocTypes {
		for _, m := range modes {
			x.session(func(s *Sess, g *G) {
				for _, n := range counts {
					for _, tail := range []int{0, 8, 40, 300} {
						pad := make([]byte, tail)
						g.r.Read(pad)
						for _, pre := range [][]byte{countPrefix(m, n), le(n, 8), le(n, 4), append([]byte{1}, countPrefix(m, n)...),
							append(append([]byte{1}, countPrefix(m, 1)...), countPrefix(m, n)...), append([]byte{1, 0, 0, 0}, countPrefix(m, n)...),
							append(countPrefix(m, 1), countPrefix(m, n)...), append(countPrefix(m, 2), countPrefix(m, n)...)} {
							if !x.thorough() && g.one(2) && tail > 0 {
								continue
							}
							one(s, m, t, append(append([]byte{}, pre...), pad...))
						}
					}
				}
			})
		}
	}
	x.random(x.size(60, 2000), func(s *Sess, g *G) {
		g.noCust = true
		t := g.sch(3)
		m := g.mode()
		rt := typeOf(t)
		if rt.Size() > 4096 {
			return
		}
		out, _ := encode(0, m, g.value(t, 20))
		for k := 0; k < 3; k++ {
			one(s, m, rt, g.mutate(out))
		}
		one(s, m, rt, g.hostile())
	})
	// deeply nested data
	for _, name := range recNames {
		for _, n := range deepLens {
			x.session(func(s *Sess, g *G) {
				for _, m := range modes {
					for how := 0; how < 9; how++ {
						if n < 1000000 || g.one(6) {
							one(s, m, recTypes[name], deepBytes(how, n))
						}
					}
				}
			})
		}
	}
	// long well-formed data
	for _, e := range []*Sch{{K: "u8"}, {K: "u8", G: namedK["u8"]}, {K: "u16"}, {K: "u32"}, {K: "u64"}, {K: "i8"}, {K: "i16"}, {K: "i64"}, {K: "bool"}, {K: "f64"}, {K: "str"}, {K: "HexBytes"}, {K: "SafeString"},
		{K: "Uint64"}, {K: "Uint128"}, {K: "Varuint32"}, {K: "slice", E: &Sch{K: "u8"}}, {K: "ptr", E: &Sch{K: "u32"}}, {K: "arr", N: 4, E: &Sch{K: "u8"}},
		{K: "struct", F: []Fld{{N: "A", T: &Sch{K: "u16"}, Big: true}, {N: "B", T: &Sch{K: "ptr", E: &Sch{K: "u8"}}, Opt: true}}}} {
		for _, m := range modes {
			x.session(func(s *Sess, g *G) {
				et := typeOf(e)
				for _, n := range []int{700, 1500, 2500, 4097, 9000, 20000} {
					if m != "borsh" && !x.thorough() && g.one(2) {
						continue
					}
					shapes := []reflect.Type{reflect.SliceOf(et), reflect.ArrayOf(n, et), reflect.MapOf(reflect.TypeOf(uint32(0)), et),
						reflect.SliceOf(reflect.SliceOf(et)), reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.PtrTo(reflect.SliceOf(et))}})}
					t := shapes[g.r.Intn(len(shapes))]
					if g.one(3) {
						t = shapes[0]
					}
					v := reflect.New(t).Elem()
					els := reflect.MakeSlice(reflect.SliceOf(et), n, n)
					for i := 0; i < n; i++ {
						els.Index(i).Set(g.value(e, 3))
					}
					switch t {
					case shapes[0]:
						v.Set(els)
					case shapes[1]:
						reflect.Copy(v, els)
					case shapes[2]:
						v.Set(reflect.MakeMap(t))
						for i := 0; i < n; i++ {
							v.SetMapIndex(reflect.ValueOf(uint32(i*7)), els.Index(i))
						}
					case shapes[3]:
						for i := 0; i < n; {
							j := min(n, i+g.r.Intn(n))
							v.Set(reflect.Append(v, els.Slice(i, j)))
							i = j
							if g.one(2) {
								i++
							}
						}
					default:
						p := reflect.New(els.Type())
						p.Elem().Set(els)
						v.Field(0).Set(p)
					}
					data, r := encode(0, m, v)
					if r != "ok" {
						continue
					}
					one(s, m, t, data)
					one(s, m, t, data[:len(data)-1])
				}
			})
		}
	}
	// long texts
	for _, m := range modes {
		for _, f := range []string{"byteslice", "string", "safe", "rust", "nbytes"} {
			x.session(func(s *Sess, g *G) {
				for _, n := range []int{700, 1500, 2500, 4097, 9000, 40000, 65535} {
					data := make([]byte, n)
					for i := range data {
						data[i] = byte(32 + i%90)
					}
					switch {
					case f == "rust" || f == "string" && m == "bin":
						data = append(le(uint64(n), 8), data...)
					case f != "nbytes":
						data = append(countPrefix(m, uint64(n)), data...)
					}
					r := "ok"
					kb := allocKB(func() {
						d := newDec(m, data, 0)
						r = try(func() error { _, err := doRead(d, A{F: f, N: int64(n)}); return err })
					})
					s.add("alloc", obj{"m": m, "f": f, "n": len(data), "size": 16}, obj{"r": r, "kb": clamp(int64(kb))})
				}
			})
		}
	}
	// primitive reads
	for _, m := range modes {
		for _, f := range []string{"byteslice", "string", "safe", "rust", "bytes", "nbytes"} {
			x.session(func(s *Sess, g *G) {
				for _, n := range counts {
					for _, pre := range [][]byte{countPrefix(m, n), le(n, 8), le(n, 4)} {
						data := append(append([]byte{}, pre...), 1, 2, 3)
						r := "ok"
						kb := allocKB(func() {
							d := newDec(m, data, 0)
							r = try(func() error { _, err := doRead(d, A{F: f, N: int64(n)}); return err })
						})
						s.add("alloc", obj{"m": m, "f": f, "n": len(data), "size": 16}, obj{"r": r, "kb": clamp(int64(kb))})
					}
				}
			})
		}
	}
}

// ---------------------------------------------------------------------
// compact-u16

type sliceReader struct {
	b []byte
	n int
}

func (r *sliceReader) ReadByte() (byte, error) {
	if r.n >= len(r.b) {
		return 0, errors.New("eof")
	}
	r.n++
	return r.b[r.n-1], nil
}

func cuWrite(v uint64) (o list) {
	put := func(r string, out []byte) { o = append(o, obj{"r": r, "out": cp(out)}) }
	{
		buf := []byte{9, 8}
		r := try(func() error { return bin.EncodeCompactU16Length(&buf, int(v)) })
		if len(buf) < 2 || buf[0] != 9 || buf[1] != 8 {
			put("panic", buf)
		} else {
			put(r, buf[2:])
		}
	}
	for _, m := range modes {
		w := &plain{}
		e := newEnc(m, w, 0)
		r := try(func() error { return e.WriteCompactU16(int(v)) })
		put(r, w.got)
		w = &plain{}
		e = newEnc(m, w, 1)
		r = try(func() error { return e.WriteCompactU16Length(int(v)) })
		put(r, w.got)
	}
	w := &plain{}
	e := newEnc("c16", w, 0)
	r := try(func() error { return e.WriteLength(int(v)) })
	put(r, w.got)
	return
}

func cuRead(data []byte) (o list) {
	put := func(r string, n, size int) {
		o = append(o, obj{"r": r, "n": clamp(int64(n)), "size": clamp(int64(size))})
	}
	var n, size int
	r := try(func() (err error) { n, size, err = bin.DecodeCompactU16(append([]byte{}, data...)); return })
	put(r, n, size)
	rd := &sliceReader{b: data}
	r = try(func() (err error) { n, err = bin.DecodeCompactU16LengthFromByteReader(rd); return })
	if r == "ok" {
		put(r, n, rd.n)
	} else {
		put(r, n, -1)
	}
	for i, m := range []string{"bin", "c16", "borsh"} {
		d := newDec(m, append([]byte{7}, data...), i)
		d.SkipBytes(1)
		r = try(func() (err error) {
			if i == 1 {
				n, err = d.ReadCompactU16Length()
			} else {
				n, err = d.ReadCompactU16()
			}
			return
		})
		put(r, n, int(d.Position())-1)
	}
	d := newDec("c16", data, 0)
	r = try(func() (err error) { n, err = d.ReadLength(); return })
	put(r, n, int(d.Position()))
	return
}

// p05: the specification's table of all encodings is compared with every
// entry point over all integers and all byte strings of up to three bytes;
// samples and all differences go into the trace.
func p05(x *X) {
	var table [][]int
	b, err := os.ReadFile(x.extra)
	if err != nil {
		fatal(err)
	}
	var wrapT []struct {
		T [][]int `json:"t"`
	}
	var w1 struct {
		T [][]int `json:"t"`
	}
	if err := json.Unmarshal(b, &w1); err != nil {
		fatal(err)
	}
	_ = wrapT
	table = w1.T
	if len(table) != 65536 {
		fatal("table has", len(table))
	}
	want := map[string]int{}
	for n, e := range table {
		bb := make([]byte, len(e))
		for i, c := range e {
			bb[i] = byte(c)
		}
		want[string(bb)] = n
	}
	bad := 0
	sample := func(k int) bool { return subSeed(x.seed, "s", k)%int64(x.size(700, 60)) == 0 }
	// writers: all integers in range, and outside
	vals := []int64{}
	for n := int64(-300); n < 65536+300; n++ {
		vals = append(vals, n)
	}
	for i := uint(17); i < 64; i++ {
		vals = append(vals, int64(1)<<i, int64(1)<<i-1, int64(1)<<i+5, -(int64(1) << i), int64(1)<<i|0x7f)
	}
	for _, n := range vals {
		o := cuWrite(uint64(n))
		diff := false
		for _, e := range o {
			ob := e.(obj)
			if n >= 0 && n < 65536 {
				got, ok := want[string(ob["out"].(bs))]
				diff = diff || ob["r"] != "ok" || !ok || int64(got) != n
			} else {
				diff = diff || ob["r"] != "err" || len(ob["out"].(bs)) != 0
			}
		}
		if (diff && bad < 50) || sample(int(n)) || n < 300 && n >= 0 && n%8 == 0 {
			if diff {
				bad++
			}
			x.session(func(s *Sess, g *G) { s.add("cuw", obj{"v": le(uint64(n), 8)}, o) })
		}
	}
	// readers: all strings of up to three bytes, some with a fourth
	checkRead := func(data []byte) {
		o := cuRead(data)
		wn, wsize, ok := 0, 0, false
		for k := 1; k <= len(data) && k <= 3 && !ok; k++ {
			if n, hit := want[string(data[:k])]; hit {
				wn, wsize, ok = n, k, true
			}
		}
		diff := false
		for _, e := range o {
			ob := e.(obj)
			if ok {
				diff = diff || ob["r"] != "ok" || ob["n"] != wn || ob["size"] != wsize
			} else {
				diff = diff || ob["r"] != "err" || (ob["size"] != 0 && ob["size"] != -1)
			}
		}
		if (diff && bad < 50) || sample(int(unle(data))*5+len(data)) {
			if diff {
				bad++
			}
			d := append([]byte{}, data...)
			x.session(func(s *Sess, g *G) { s.add("cur", obj{"data": bs(d)}, o) })
		}
	}
	checkRead(nil)
	checked := 1
	for a := 0; a < 256; a++ {
		checkRead([]byte{byte(a)})
		for b := 0; b < 256; b++ {
			checkRead([]byte{byte(a), byte(b)})
			for c := 0; c < 256; c++ {
				// quick: third bytes matter only behind two continuations
				if !x.thorough() && !(a >= 128 && b >= 128 && (a%16 == 0 || a%16 == 15 || b%32 == 3) || (a*31+b*17+c)%61 == 0) {
					continue
				}
				checked++
				checkRead([]byte{byte(a), byte(b), byte(c)})
			}
		}
		x.beat <- -1
	}
	r := rand.New(rand.NewSource(x.seed))
	for k := 0; k < 20000; k++ {
		d := make([]byte, 3+r.Intn(4))
		r.Read(d)
		if k%2 == 0 {
			d[0] |= 0x80
			d[1] |= 0x80
			d[2] = byte(r.Intn(8))
		}
		checkRead(d)
	}
}

// ---------------------------------------------------------------------

func p06(x *X) {
	// write and read back, in one stream
	x.random(x.size(400, 8000), func(s *Sess, g *G) {
		m := g.mode()
		s.newE(0, m, g.r.Intn(2))
		var fs []string
		for k := 0; k < 6; k++ {
			f := g.pick("uvarint", "varint")
			a := A{F: f, V: g.varVal()}
			s.wr(0, a)
			fs = append(fs, f)
		}
		s.newD(1, m, append([]byte{}, s.enc[0].w.got...), g.r.Intn(2))
		for _, f := range fs {
			rf := "uv64"
			if f == "varint" {
				rf = "v64"
			}
			if g.one(5) {
				p := s.dec[1].d.Position()
				s.rd(1, A{F: g.pick("uv32", "v32", "uv16", "v16", "uv64", "v64")})
				if int(p) < s.dec[1].d.Len() {
					s.rd(1, A{F: "seek", N: int64(p), U: uint64(p)})
				}
			}
			s.rd(1, A{F: rf})
		}
	})
	// arbitrary bytes into every reader
	x.random(x.size(500, 12000), func(s *Sess, g *G) {
		data := g.varBytes()
		s.newD(0, g.mode(), data, 0)
		for _, f := range []string{"uv64", "v64", "uv32", "v32", "uv16", "v16"} {
			s.rd(0, A{F: f})
			if len(data) > 0 {
				s.rd(0, A{F: "seek", N: 0})
			} else {
				s.reset(0, data)
			}
		}
	})
	// varint-typed fields and elements
	x.random(x.size(300, 6000), func(s *Sess, g *G) {
		k := g.pick("Varint16", "Varuint16", "Varint32", "Varuint32")
		t := &Sch{K: k}
		switch g.r.Intn(5) {
		case 0:
			t = &Sch{K: "slice", E: t}
		case 1:
			t = &Sch{K: "struct", F: []Fld{{N: "A", T: t, Big: g.one(2)}, {N: "B", T: &Sch{K: g.pick("Varint16", "Varuint32")}}}}
		case 2:
			t = &Sch{K: "ptr", E: t}
		case 3:
			t = &Sch{K: "map", Key: t, E: t}
		}
		m := g.mode()
		v := g.value(t, 6)
		s.rt1(g, m, t, v)
		s.enc1(g, m, t, v)
		s.dec1(g, m, t, g.varBytes(), 0, none)
	})
	for _, sc := range x.scen {
		x.session(func(s *Sess, g *G) {
			for _, m := range modes {
				s.rt1(g, m, sc.T, sc.value())
			}
		})
	}
}

func (g *G) varVal() []byte {
	switch g.r.Intn(4) {
	case 0:
		return le(uint64(1)<<uint(g.r.Intn(64))-uint64(g.r.Intn(2)), 8)
	case 1:
		return le(-(uint64(1)<<uint(g.r.Intn(64)))-uint64(g.r.Intn(2)), 8)
	case 2:
		return le(uint64(1)<<uint(7*g.r.Intn(10))+uint64(g.r.Intn(3))-1, 8)
	}
	return g.rawInt(8)
}

func (g *G) varBytes() []byte {
	var b []byte
	switch g.r.Intn(5) {
	case 0: // continuation run
		for k := g.r.Intn(12); k > 0; k-- {
			b = append(b, byte(128+g.r.Intn(128)))
		}
		b = append(b, byte(g.r.Intn(4)))
	case 1:
		for k := g.r.Intn(12); k > 0; k-- {
			b = append(b, []byte{0x80, 0xff}[g.r.Intn(2)])
		}
		if !g.one(3) {
			b = append(b, []byte{0, 1, 2, 0x7f}[g.r.Intn(4)])
		}
	case 2:
		n := unle(g.varVal())
		for n >= 128 {
			b = append(b, byte(n)|128)
			n >>= 7
		}
		b = append(b, byte(n))
		if g.one(3) {
			b = b[:g.r.Intn(len(b))]
		}
	case 3:
		b = g.raw()
	default:
		for k := 1 + g.r.Intn(3); k > 0; k-- {
			n := uint64(1)<<uint(g.r.Intn(35)) - uint64(g.r.Intn(2))
			for n >= 128 {
				b = append(b, byte(n)|128)
				n >>= 7
			}
			b = append(b, byte(n))
		}
	}
	if g.one(2) {
		b = append(b, g.raw()...)
	}
	if len(b) > 40 {
		b = b[:40]
	}
	return b
}

// ---------------------------------------------------------------------

type opScen struct {
	M    string `json:"m"`
	Data []int  `json:"data"`
	Ops  []struct {
		F   string `json:"f"`
		Big bool   `json:"big"`
		N   int64  `json:"n"`
	} `json:"ops"`
}

func (x *X) readExtra(each func(raw json.RawMessage)) {
	f, err := os.Open(x.extra)
	if err != nil {
		fatal(err)
	}
	defer f.Close()
	d := json.NewDecoder(f)
	for d.More() {
		var r json.RawMessage
		if err := d.Decode(&r); err != nil {
			fatal(err)
		}
		each(r)
	}
}

func p11(x *X) {
	if x.extra != "" {
		k := 0
		x.readExtra(func(raw json.RawMessage) {
			var sc opScen
			if err := json.Unmarshal(raw, &sc); err != nil {
				fatal(err)
			}
			k++
			x.session(func(s *Sess, g *G) {
				data := make([]byte, len(sc.Data))
				for i, c := range sc.Data {
					data[i] = byte(c)
				}
				s.newD(0, sc.M, data, k)
				for _, a := range sc.Ops {
					if s.rd(0, A{F: a.F, Big: a.Big, N: a.N, U: uint64(a.N)}) == "panic" {
						break
					}
				}
			})
		})
	}
	// counts next to powers of two
	for k := 0; k < 60; k++ {
		x.session(func(s *Sess, g *G) {
			data := append(edgeCount(k), g.raw()...)
			for i, m := range modes {
				s.newD(i, m, data, g.r.Intn(2))
				for _, f := range []string{"len", "byteslice", "string", "safe", "rust", "cu16", "cu16len", "u32", "uv64", "uv32", "uv16", "v64", "v32", "v16"} {
					s.rd(i, A{F: "seek"})
					if s.rd(i, A{F: f}) == "panic" {
						return
					}
				}
			}
		})
	}
	// every read at every kind of first byte, before runs of equal bytes
	for _, first := range []byte{0, 1, 2, 3, 5, 0x7f, 0x80, 0xff} {
		for _, rest := range []byte{0, 1, 2, 0x80, 0xff} {
			x.session(func(s *Sess, g *G) {
				data := make([]byte, 4+g.r.Intn(30))
				for i := range data {
					data[i] = rest
				}
				at := 0
				if g.one(2) {
					at = g.r.Intn(len(data))
				}
				if g.one(3) {
					data[len(data)-1] = byte(g.r.Intn(256))
				}
				data[at] = first
				for i, m := range modes {
					s.newD(i, m, data, g.r.Intn(2))
					for _, f := range readOps {
						s.rd(i, A{F: "seek", N: int64(at), U: uint64(at)})
						a := g.readArg(f, len(data)-at, len(data))
						if s.rd(i, a) == "panic" {
							return
						}
					}
				}
			})
		}
	}
	x.random(x.size(900, 30000), func(s *Sess, g *G) {
		var data []byte
		switch g.r.Intn(5) {
		case 4:
			data = g.fuzzBytes()
		case 0:
			data = g.hostile()
		case 1:
			data = g.varBytes()
		default:
			data = make([]byte, g.r.Intn(60))
			g.r.Read(data)
			if g.one(2) {
				for i := range data {
					if g.one(2) {
						data[i] = byte(g.r.Intn(3))
					}
				}
			}
		}
		s.newD(0, g.mode(), data, g.r.Intn(2))
		for k := 5 + g.r.Intn(25); k > 0; k-- {
			o := s.dec[0]
			f := readOps[g.r.Intn(len(readOps))]
			if o.d.Remaining() == 0 && g.one(2) {
				f = "seek"
			}
			rem := o.d.Remaining()
			if rem < 0 || rem > len(o.data) {
				break
			}
			a := g.readArg(f, rem, len(o.data))
			if s.rd(0, a) == "panic" {
				break
			}
			switch g.r.Intn(25) {
			case 0:
				s.setenc(0, g.mode())
			case 1:
				s.reset(0, append(g.hostile(), g.raw()...))
			}
		}
	})
}

func p12(x *X) {
	// every operation next to every other
	for _, f := range writeOps {
		for _, h := range writeOps {
			x.session(func(s *Sess, g *G) {
				s.newE(0, g.mode(), g.r.Intn(2))
				s.wr(0, g.writeArg(f))
				s.wr(0, g.writeArg(h))
			})
		}
	}
	x.random(x.size(500, 20000), func(s *Sess, g *G) {
		s.newE(0, g.mode(), g.r.Intn(2))
		s.newE(1, g.mode(), g.r.Intn(2))
		for k := 4 + g.r.Intn(20); k > 0; k-- {
			id := 0
			if g.one(4) {
				id = 1
			}
			if g.one(6) {
				g.noMap = g.one(2)
				t := g.sch(2)
				s.encode(g, id, t, g.value(t, 8))
			} else {
				s.wr(id, g.writeArg(writeOps[g.r.Intn(len(writeOps))]))
			}
		}
	})
	// large writes among small ones
	sizes := []int{65537, 70001, 131073}
	for _, f := range []string{"write", "bytes", "bytesn", "string", "rust"} {
		for k, m := range modes {
			x.session(func(s *Sess, g *G) {
				s.newE(0, m, g.r.Intn(2))
				s.wr(0, g.writeArg("u16"))
				a := A{F: f, V: make([]byte, sizes[(k+len(f))%3])}
				if f == "bytes" || f == "bytesn" {
					a.F, a.Pre = "bytes", f == "bytes"
				}
				g.r.Read(a.V)
				if f == "string" || f == "rust" {
					for i := range a.V {
						a.V[i] &= 0x7f
					}
				}
				s.wr(0, a)
				s.wr(0, g.writeArg("u32"))
			})
		}
	}
	// refusals leave the stream alone
	x.random(x.size(150, 3000), func(s *Sess, g *G) {
		m := g.pick("c16", "borsh", "c16", "bin")
		s.newE(0, m, g.r.Intn(2))
		for k := 0; k < 8; k++ {
			switch g.r.Intn(5) {
			case 0:
				s.wr(0, A{F: g.pick("cu16", "cu16len"), V: le(uint64([]int64{-1, 65536, 1 << 40, 65535, 0, 100000}[g.r.Intn(6)]), 8)})
			case 1:
				s.wr(0, A{F: "f32", V: le(0x7fc00001, 4), Big: g.one(2)})
			case 2:
				s.wr(0, A{F: "f64", V: le(0x7ff8000000000001, 8), Big: g.one(2)})
			case 3:
				s.wr(0, g.writeArg(writeOps[g.r.Intn(len(writeOps))]))
			default:
				t := &Sch{K: g.pick("u32", "str", "Uint128", "i64")}
				s.encode(g, 0, t, g.value(t, 5))
			}
		}
		if m == "c16" && g.one(20) {
			s.wr(0, A{F: "bytes", Pre: true, V: make([]byte, 65536)})
			s.wr(0, g.writeArg("u16"))
		}
	})
}

// ---------------------------------------------------------------------

type faulty struct {
	kind   string
	budget int
	got    []byte
	failed bool
	err    error
}

func (f *faulty) Write(b []byte) (int, error) {
	if f.failed && f.kind != "recover" && f.kind != "shortrec" {
		return 0, f.err
	}
	if f.failed || len(f.got)+len(b) < f.budget || (len(f.got)+len(b) == f.budget && f.kind != "after") || len(b) == 0 {
		f.got = append(f.got, b...)
		return len(b), nil
	}
	f.failed = true
	switch f.kind {
	case "after":
		f.got = append(f.got, b...)
		return len(b), f.err
	case "zero":
		return 0, f.err
	}
	k := f.budget - len(f.got)
	f.got = append(f.got, b[:k]...)
	if f.kind == "short" || f.kind == "shortrec" {
		return k, nil
	}
	return k, f.err
}

var faultKinds = []string{"stop", "zero", "recover", "after", "short", "shortrec"}

func p13(x *X) {
	drive := func(s *Sess, g *G, fields obj, total int, call func(e *bin.Encoder) error, m string) {
		o := list{}
		budgets := []int{}
		for k := 0; k <= total; k++ {
			if total <= 48 || g.r.Intn(total) < 40 || k <= 2 || k >= total-2 {
				budgets = append(budgets, k)
			}
		}
		for i, k := range budgets {
			kinds := []string{faultKinds[(i+g.r.Intn(6))%6], faultKinds[g.r.Intn(6)]}
			if x.thorough() {
				kinds = faultKinds
			}
			for _, kind := range kinds {
				w := &faulty{kind: kind, budget: k, err: refusals[(i+k)%len(refusals)]}
				var e *bin.Encoder
				r := try(func() error { e = newEnc(m, w, i); return call(e) })
				o = append(o, obj{"kind": kind, "k": k, "failed": w.failed, "r": r, "got": cp(w.got), "w": clamp(int64(e.Written()))})
			}
		}
		s.add("fault", fields, o)
	}
	val := func(s *Sess, g *G, m string, t *Sch, v reflect.Value) {
		if m != "borsh" && bigMap(t, v) {
			return
		}
		out, r := encode(0, m, v)
		if r != "ok" {
			return
		}
		drive(s, g, obj{"k": "enc", "m": m, "t": t, "v": valOf(t, v)}, len(out), func(e *bin.Encoder) error {
			if g.one(2) {
				return e.Encode(v.Addr().Interface())
			}
			return e.Encode(v.Interface())
		}, m)
	}
	x.random(x.size(40, 2000), func(s *Sess, g *G) { s.rep(g, g.mode(), "faults") })
	for _, sc := range x.pick(500, 6000) {
		x.session(func(s *Sess, g *G) {
			for _, m := range modes {
				val(s, g, m, sc.T, sc.value())
			}
		})
	}
	x.random(x.size(150, 4000), func(s *Sess, g *G) {
		t := g.anySch()
		val(s, g, g.mode(), t, g.value(t, 10))
	})
	for _, f := range writeOps {
		for _, m := range modes {
			x.session(func(s *Sess, g *G) {
				for k := 0; k < x.size(3, 20); k++ {
					a := g.writeArg(f)
					w := &plain{}
					if try(func() error { return doWrite(newEnc(m, w, 0), a) }) != "ok" {
						continue
					}
					drive(s, g, obj{"k": "wr", "m": m, "a": a.writeJSON()}, len(w.got), func(e *bin.Encoder) error { return doWrite(e, a) }, m)
				}
			})
		}
	}
}

// bigMap: some map has more than one entry
func bigMap(t *Sch, v reflect.Value) bool {
	switch t.K {
	case "map":
		if v.Len() > 1 {
			return true
		}
		for _, k := range v.MapKeys() {
			if bigMap(t.E, v.MapIndex(k)) {
				return true
			}
		}
	case "ptr":
		return !v.IsNil() && bigMap(t.E, v.Elem())
	case "arr", "slice":
		for i := 0; i < v.Len(); i++ {
			if bigMap(t.E, v.Index(i)) {
				return true
			}
		}
	case "struct":
		for i, f := range t.F {
			if bigMap(f.T, v.Field(i)) {
				return true
			}
		}
	}
	return false
}
