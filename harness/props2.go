package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"sync/atomic"
	"time"
	"unicode"
	"unsafe"

	bin "github.com/gagliardetto/binary"
)

func in(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// codec events on a family: encode, decode the result over old content,
// decode damaged versions
func (x *X) family(quick, thorough int, only func(m string) bool, muts int) {
	for _, sc := range x.pick(quick, thorough) {
		x.session(func(s *Sess, g *G) {
			for _, m := range modes {
				if only != nil && !only(m) {
					continue
				}
				s.both(g, m, sc.T, sc.value(), muts)
			}
		})
	}
}

func (s *Sess) both(g *G, m string, t *Sch, v reflect.Value, muts int) {
	out := s.enc1(g, m, t, v)
	if out == nil || floatKeys(t) {
		return
	}
	prior := none
	if g.one(2) {
		prior = g.prior(t)
	}
	s.dec1(g, m, t, append(out, g.tail(t)...), 0, prior)
	for k := 0; k < muts; k++ {
		prior = none
		if g.one(2) {
			prior = g.prior(t)
		}
		s.dec1(g, m, t, g.mutate(out), 0, prior)
	}
}

func (g *G) tail(t *Sch) []byte {
	if hasExt(t) || g.one(2) {
		return nil
	}
	return g.raw()
}

// prior: random old content of a destination (unsupported kinds stay zero)
func (g *G) prior(t *Sch) reflect.Value {
	g.budget = 10
	v := reflect.New(typeOf(t)).Elem()
	g.fill(t, v)
	return v
}

func isBorsh(m string) bool { return m == "borsh" }

func p14(x *X) {
	for _, sc := range x.pick(700, 0) {
		x.session(func(s *Sess, g *G) {
			for _, m := range modes {
				v := sc.value()
				out := s.enc1(g, m, sc.T, v)
				if out == nil {
					continue
				}
				s.dec1(g, m, sc.T, out, 0, g.prior(sc.T))
				// the flag byte itself (it follows one leading byte in most of
				// the family)
				if len(out) > 1 {
					o2 := append([]byte{}, out...)
					o2[g.r.Intn(min(3, len(o2)))] = []byte{0, 1, 2, 3, 0x7f, 0x80, 0xff}[g.r.Intn(7)]
					s.dec1(g, m, sc.T, append(o2, g.raw()...), 0, none)
					o3 := append([]byte{}, out...)
					o3[g.r.Intn(min(6, len(o3)))] = byte(g.r.Intn(256))
					s.dec1(g, m, sc.T, o3, 0, g.prior(sc.T))
				}
			}
		})
	}
	x.random(x.size(300, 15000), func(s *Sess, g *G) {
		t := &Sch{K: "struct", F: []Fld{}}
		for i := 0; i < 1+g.r.Intn(4); i++ {
			f := Fld{N: fmt.Sprintf("F%d", i), T: g.sch(2), Big: g.one(3)}
			switch g.r.Intn(4) {
			case 0, 1:
				f.Opt = true
			case 2:
				f.Copt = true
			}
			t.F = append(t.F, f)
		}
		s.both(g, g.mode(), t, g.value(t, 12), 3)
	})
	for _, n := range []string{"Opts", "COpts", "Account", "Noisy"} {
		t := schemaOf(catalogue[n])
		x.random(x.size(20, 600), func(s *Sess, g *G) {
			g.nilPtr = true
			m := g.mode()
			if m != "borsh" && n != "Opts" {
				g.nilPtr = false
			}
			s.both(g, m, t, g.value(t, 12), 2)
		})
	}
}

func p15(x *X) {
	one := func(s *Sess, g *G, m string, t *Sch, v reflect.Value) {
		val := valOf(t, v)
		outs := list{}
		r := "ok"
		for k := 0; k < 5; k++ {
			w := v
			if t.K == "map" {
				w = shuffled(g, v)
			}
			out, rr := encode(g.r.Intn(12), m, w)
			if rr != "ok" {
				r = rr
			}
			outs = append(outs, bs(out))
		}
		s.add("det", obj{"m": m, "t": t, "v": val}, obj{"r": r, "outs": outs})
		s.rt1(g, m, t, v)
	}
	for _, sc := range x.pick(700, 0) {
		x.session(func(s *Sess, g *G) {
			for _, m := range modes {
				if m == "borsh" || g.one(3) {
					one(s, g, m, sc.T, sc.value())
				}
			}
		})
	}
	x.random(x.size(400, 15000), func(s *Sess, g *G) {
		t := &Sch{K: "map", Key: g.key(), E: g.sch(2)}
		if g.one(4) {
			t = &Sch{K: "map", Key: &Sch{K: "str"}, E: &Sch{K: "map", Key: g.key(), E: &Sch{K: "u8"}}}
		}
		if g.one(6) {
			t = &Sch{K: "struct", F: []Fld{{N: "A", T: t}, {N: "B", T: &Sch{K: "slice", E: &Sch{K: "map", Key: g.key(), E: &Sch{K: "u16"}}}}}}
		}
		m := "borsh"
		if g.one(4) {
			m = g.mode()
		}
		one(s, g, m, t, g.value(t, 40))
	})
	// long keys that share most of their bytes
	x.random(x.size(24, 300), func(s *Sess, g *G) {
		t := &Sch{K: "map", Key: &Sch{K: "str", G: []string{"", "NStr", "MStr"}[g.r.Intn(3)]}, E: &Sch{K: "u8"}}
		v := reflect.New(typeOf(t)).Elem()
		v.Set(reflect.MakeMap(v.Type()))
		n := []int{15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 300}[g.r.Intn(11)]
		base := make([]byte, n)
		for i := range base {
			base[i] = "abc"[g.r.Intn(3)]
		}
		for k := 0; k < 7; k++ {
			b := append([]byte{}, base...)
			switch g.r.Intn(4) {
			case 0:
				b = append(b, g.text()...)
			case 1:
				b = b[:n-1]
			case 2:
				b[n-1] ^= byte(1 << uint(g.r.Intn(8)))
			default:
				b = append(b, byte(g.r.Intn(256)))
			}
			v.SetMapIndex(reflect.ValueOf(string(b)).Convert(v.Type().Key()), reflect.ValueOf(uint8(k)))
		}
		one(s, g, "borsh", t, v)
	})
	tm := schemaOf(catalogue["Maps"])
	x.random(x.size(30, 800), func(s *Sess, g *G) {
		one(s, g, "borsh", tm, g.value(tm, 25))
	})
}

// shuffled: an equal map built in another order, with deleted entries on the way
func shuffled(g *G, v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	if v.IsNil() {
		return out
	}
	out.Set(reflect.MakeMapWithSize(v.Type(), g.r.Intn(20)))
	ks := v.MapKeys()
	for i := 0; i < 3 && i < len(ks); i++ {
		out.SetMapIndex(ks[i], v.MapIndex(ks[i]))
		out.SetMapIndex(ks[i], reflect.Value{})
	}
	for _, i := range g.r.Perm(len(ks)) {
		out.SetMapIndex(ks[i], v.MapIndex(ks[i]))
	}
	return out
}

func p16(x *X) {
	for _, sc := range x.pick(800, 0) {
		x.session(func(s *Sess, g *G) {
			s.both(g, "borsh", sc.T, sc.value(), 1)
			// other tags
			out, r := encode(0, "borsh", sc.value())
			if r == "ok" && len(out) > 0 && !floatKeys(sc.T) {
				o := append([]byte{}, out...)
				o[0] = []byte{0, 1, 2, 3, 4, 0x7f, 0xff}[g.r.Intn(7)]
				s.dec1(g, "borsh", sc.T, o, 0, g.prior(sc.T))
			}
		})
	}
	x.random(x.size(400, 15000), func(s *Sess, g *G) {
		t := g.enumSch(3)
		switch g.r.Intn(5) {
		case 0:
			t = &Sch{K: "slice", E: t}
		case 1:
			t = &Sch{K: "struct", F: []Fld{{N: "A", T: t, Opt: g.one(2)}, {N: "B", T: &Sch{K: "ptr", E: g.enumSch(2)}, Opt: g.one(2)}}}
		}
		g.bare = g.one(4)
		v := g.value(t, 12)
		g.bare = false
		if t.Enum && g.one(8) { // no such variant
			v.Field(0).SetUint(uint64(len(t.F) - 1 + g.r.Intn(200)))
		}
		s.both(g, "borsh", t, v, 2)
	})
	// enums with many variants
	x.random(x.size(40, 600), func(s *Sess, g *G) {
		t := &Sch{K: "struct", Enum: true, F: []Fld{{N: "Enum", T: &Sch{K: "u8", G: "BorshEnum"}}}}
		for n := []int{127, 128, 129, 130, 200, 255, 256}[g.r.Intn(7)]; n > 0; n-- {
			t.F = append(t.F, Fld{N: fmt.Sprintf("V%d", len(t.F)), T: &Sch{K: g.pick("u8", "u8", "u16", "bool")}})
		}
		v := g.value(t, 12)
		tag := g.r.Intn(256)
		if g.one(2) {
			tag = []int{126, 127, 128, 129, 254, 255}[g.r.Intn(6)]
		}
		v.Field(0).SetUint(uint64(tag))
		out := s.enc1(g, "borsh", t, v)
		if out == nil {
			out = []byte{byte(tag), 1, 1}
		}
		s.dec1(g, "borsh", t, out, 0, none)
	})
	// what is an enum and what is not
	x.random(x.size(120, 3000), func(s *Sess, g *G) {
		be := &Sch{K: "u8", G: "BorshEnum"}
		t := &Sch{K: "struct", F: []Fld{{N: "Enum", T: be}}}
		for n := g.r.Intn(4); n > 0; n-- {
			t.F = append(t.F, Fld{N: fmt.Sprintf("V%d", len(t.F)), T: g.leaf()})
		}
		switch g.r.Intn(5) {
		case 0: // the type without the tag
		case 1: // the tag without the type
			t.F[0].T = &Sch{K: g.pick("u8", "u8", "u8", "u16", "i8", "bool", "str"), G: ""}
			t.F[0].Etag = true
			if t.F[0].T.K == "u8" && !g.one(3) {
				t.F[0].T.G = g.pick(namedK["u8"], "OwnBorshEnum")
			}
		case 2: // not in front
			t.F = append([]Fld{{N: "Before", T: g.leaf()}}, t.F...)
			t.F[1].Etag = true
		case 3: // an enum without variants
			t.F = t.F[:1]
			t.Enum = true
		case 4: // more than one tag
			t.Enum = true
			t.F = append(t.F, Fld{N: "Last", T: be, Etag: true})
		}
		v := reflect.New(typeOf(t)).Elem()
		if !t.Enum || len(t.F) > 1 {
			v = g.value(t, 8)
		} else {
			v.Field(0).SetUint(g.oneByte() % 3)
		}
		if g.one(3) {
			outer := &Sch{K: "struct", F: []Fld{{N: "A", T: t}, {N: "B", T: &Sch{K: "u16"}}}}
			w := reflect.New(typeOf(outer)).Elem()
			w.Field(0).Set(v)
			t, v = outer, w
		}
		m := "borsh"
		if g.one(4) {
			m = g.mode()
		}
		out := s.enc1(g, m, t, v)
		if out == nil {
			out = []byte{byte(g.r.Intn(3)), 1, 0, 0, 0, 5, 6}
		}
		s.dec1(g, m, t, out, 0, none)
	})
	for _, n := range []string{"EnumA", "EnumB", "EnumC", "Tx"} {
		t := schemaOf(catalogue[n])
		x.random(x.size(25, 800), func(s *Sess, g *G) {
			s.both(g, "borsh", t, g.value(t, 12), 2)
		})
	}
}

func p17(x *X) {
	x.twins(x.size(8, 200))
	x.family(700, 0, nil, 1)
	x.random(x.size(350, 15000), func(s *Sess, g *G) {
		g.noOpt = true
		t := g.tagStruct(2)
		s.both(g, g.mode(), t, g.value(t, 10), 1)
	})
	for _, n := range []string{"Skips", "Everything", "Nested", "Account", "Tagged", "Boxes", "Embs", "EmbOpt", "EmbDeep", "Noisy", "Blanks"} {
		t := schemaOf(catalogue[n])
		x.random(x.size(20, 500), func(s *Sess, g *G) {
			s.both(g, g.mode(), t, g.value(t, 12), 1)
		})
	}
	// many fields
	x.random(x.size(20, 400), func(s *Sess, g *G) {
		n := []int{17, 31, 32, 33, 40, 63, 64, 65, 70, 100, 128, 130, 257, 300}[g.r.Intn(14)]
		t := &Sch{K: "struct"}
		for i := 0; i < n; i++ {
			f := Fld{N: fmt.Sprintf("F%d", i), T: &Sch{K: g.pick("u8", "u16", "u32", "i16", "i64", "f32", "bool", "Uint64", "str")}, Big: g.one(2), Skip: g.one(8), Opt: g.one(9)}
			if g.one(12) {
				f.T = &Sch{K: "iface"}
				f.Opt = false
			}
			if g.one(12) {
				f.T = &Sch{K: "ptr", E: f.T}
			}
			t.F = append(t.F, f)
		}
		s.both(g, g.mode(), t, g.value(t, 60), 1)
	})
	// interface fields, whatever they hold
	x.random(x.size(60, 1200), func(s *Sess, g *G) {
		t := &Sch{K: "struct", F: []Fld{{N: "A", T: &Sch{K: "u8"}}, {N: "B", T: &Sch{K: "iface"}, Big: g.one(2)}, {N: "C", T: &Sch{K: "u16"}, Big: g.one(2)},
			{N: "D", T: &Sch{K: "iface"}, Skip: g.one(2)}, {N: "E", T: &Sch{K: "arr", N: 2, E: &Sch{K: "iface"}}}, {N: "F", T: &Sch{K: "str"}}}}
		if g.one(3) {
			t = &Sch{K: "slice", E: t}
		}
		m := g.mode()
		v := g.value(t, 8)
		if out := s.enc1(g, m, t, v); out != nil {
			s.dec1(g, m, t, out, 0, none)
			s.dec1(g, m, t, out, 0, g.value(t, 8))
		}
	})
	// a field of every role next to a field of every kind with a byte order
	ordered := []string{"u16", "u32", "u64", "i16", "i32", "i64", "f32", "f64", "Uint64", "Int64", "Uint128", "Int128", "JSONFloat64", "CustO"}
	for role := 0; role < 13; role++ {
		for _, k := range ordered {
			for flip := 0; flip < 2; flip++ {
				x.session(func(s *Sess, g *G) {
					a := Fld{N: "A", T: &Sch{K: g.pick("u16", "u32", "u64", "i16", "f64")}, Big: flip == 0}
					fs := []Fld{}
					opt := false
					switch role {
					case 1:
						a.Skip = true
					case 2:
						a.N, a.Unexp = "a", true
						a.T = &Sch{K: g.pick("u8", "u32", "str")}
					case 3:
						a.T = &Sch{K: "iface"}
					case 4:
						a.T = &Sch{K: "ptr", E: a.T}
					case 5:
						a.T = &Sch{K: "slice", E: a.T}
					case 6:
						a.T = &Sch{K: "arr", N: 2, E: a.T}
					case 7:
						a.T = &Sch{K: "struct", F: []Fld{{N: "X", T: a.T, Big: flip == 0}}}
					case 8:
						a.T = &Sch{K: "map", Key: &Sch{K: "u8"}, E: a.T}
					case 9:
						a.Opt, opt = true, true
					case 10:
						a.Copt, opt = true, true
					case 11:
						a.T = &Sch{K: g.pick("CustA", "CustN", "CustM", "Uint64", "Int128", "HexBytes", "Varint16")}
					case 12:
						a.T = &Sch{K: "u16"}
						a.So = "S"
						fs = append(fs, Fld{N: "S", T: &Sch{K: "slice", E: &Sch{K: "u8"}}})
					}
					b := Fld{N: "B", T: &Sch{K: k}, Big: flip == 1}
					if g.one(3) {
						b.T = &Sch{K: "ptr", E: b.T}
					}
					fs = append([]Fld{a}, append(fs, b)...)
					if g.one(2) && a.So == "" {
						fs = append([]Fld{{N: "P", T: &Sch{K: "u16"}, Big: flip == 1}, b}, a)
						fs[1].N = "Q"
						fs = append(fs, b)
					}
					fs = append(fs, Fld{N: "Z", T: &Sch{K: "u16"}, Big: g.one(2)})
					t := &Sch{K: "struct", F: fs}
					for _, m := range modes {
						v := g.value(t, 6)
						if opt && g.one(2) {
							f := v.FieldByName("A")
							f.Set(reflect.Zero(f.Type()))
						}
						if out := s.enc1(g, m, t, v); out != nil {
							s.dec1(g, m, t, out, 0, none)
						}
					}
				})
			}
		}
	}
}

// twins: one after the other, types that share their name
func (x *X) twins(n int, ms ...string) {
	x.random(n, func(s *Sess, g *G) {
		if len(ms) == 0 {
			ms = modes
		}
		for _, i := range g.r.Perm(len(twinNames)) {
			t := schemaOf(named[twinNames[i]])
			if g.one(4) {
				t = &Sch{K: "slice", E: t}
			}
			m := ms[g.r.Intn(len(ms))]
			if out := s.enc1(g, m, t, g.value(t, 6)); out != nil {
				s.dec1(g, m, t, out, 0, g.prior(t))
			}
		}
	})
}

// tagStruct: many small fields with skip, byte order, unexported, interface
func (g *G) tagStruct(depth int) *Sch {
	t := &Sch{K: "struct", F: []Fld{}}
	n := 2 + g.r.Intn(6)
	for i := 0; i < n; i++ {
		f := Fld{N: fmt.Sprintf("F%d", i), T: g.leaf(), Big: g.one(2)}
		switch g.r.Intn(10) {
		case 0:
			f.Skip = true
			if g.one(2) {
				f.T = g.sch(1)
			}
		case 1:
			f.N, f.Unexp = fmt.Sprintf("f%d", i), true
			f.T = &Sch{K: g.pick("u8", "u32", "str")}
			if g.one(3) {
				f.T = &Sch{K: g.pick("arr", "slice", "ptr"), N: 3, E: f.T}
			}
			if g.one(3) {
				f.N = "_"
			}
		case 2:
			f.T = &Sch{K: "iface"}
		case 3:
			f.T = &Sch{K: "ptr", E: f.T}
		case 4:
			f.T = &Sch{K: "slice", E: f.T}
		case 5:
			f.T = &Sch{K: "arr", N: 2, E: f.T}
		case 6:
			if depth > 0 {
				f.T = g.tagStruct(depth - 1)
				if minW(f.T) > 0 && g.one(2) {
					f.T = &Sch{K: "slice", E: f.T}
				}
			}
		}
		t.F = append(t.F, f)
	}
	return t
}

func p18(x *X) {
	x.twins(x.size(8, 200))
	// a linked slice next to unlinked ones of the same name, inside and around
	// it, before and after it
	x.random(x.size(200, 4000), func(s *Sess, g *G) {
		names := []string{"D", "N", "Data"}
		name := names[g.r.Intn(3)]
		slice := func(e *Sch) *Sch {
			t := &Sch{K: "slice", E: e}
			if g.one(4) {
				t = &Sch{K: "ptr", E: t}
			}
			return t
		}
		free := func() *Sch { // that name, with no count of its own
			return &Sch{K: "struct", F: []Fld{{N: "H", T: &Sch{K: "u8"}}, {N: name, T: slice(&Sch{K: g.pick("u8", "u16", "str")}), Opt: g.one(5)}}}
		}
		linked := func(e *Sch) *Sch {
			return &Sch{K: "struct", F: []Fld{{N: "C", T: &Sch{K: g.pick("u8", "u16", "u32", "i64", "Varuint16")}, So: name}, {N: name, T: slice(e), Opt: g.one(6)}}}
		}
		in := func(t *Sch) *Sch {
			switch g.r.Intn(5) {
			case 0:
				return &Sch{K: "ptr", E: t}
			case 1:
				return &Sch{K: "arr", N: 2, E: t}
			case 2:
				return &Sch{K: "slice", E: t}
			case 3:
				return &Sch{K: "map", Key: &Sch{K: "u8"}, E: t}
			}
			return t
		}
		var t *Sch
		switch g.r.Intn(6) {
		case 0:
			t = linked(free())
		case 1:
			t = linked(linked(&Sch{K: "u16"}))
		case 2: // around
			t = &Sch{K: "struct", F: []Fld{{N: "P", T: in(linked(&Sch{K: "u8"}))}, {N: name, T: slice(&Sch{K: "u8"})}}}
		case 3: // after the count, before the slice
			t = linked(&Sch{K: "u16"})
			t.F = []Fld{t.F[0], {N: "M", T: in(free())}, t.F[1]}
		case 4: // after the slice
			t = linked(&Sch{K: "u16"})
			t.F = append(t.F, Fld{N: "M", T: in(free())}, Fld{N: "O", T: in(linked(&Sch{K: "u8"}))})
		default:
			t = &Sch{K: "struct", F: []Fld{{N: "P", T: in(free())}, {N: "Q", T: in(linked(free()))}, {N: "R", T: in(free())}}}
		}
		m := g.mode()
		s.both(g, m, t, g.value(t, 10), 1)
		// one codec, one after the other
		f := free()
		s.newE(0, m, g.r.Intn(2))
		data := []byte{}
		for _, k := range g.r.Perm(4) {
			c := t
			if k > 1 {
				c = f
			}
			v := g.value(c, 6)
			s.encode(g, 0, c, v)
			if out, r := encode(0, m, v); r == "ok" {
				data = append(data, out...)
			}
		}
		s.newD(0, m, data, g.r.Intn(2))
		for k := 0; k < 4; k++ {
			c := t
			if g.one(2) {
				c = f
			}
			s.decode(0, c, none)
		}
	})
	for _, sc := range x.pick(1100, 0) {
		x.session(func(s *Sess, g *G) {
			for _, m := range modes {
				if !x.thorough() && !g.one(2) {
					continue
				}
				v := sc.value()
				out := s.enc1(g, m, sc.T, v)
				if out == nil {
					// decode the same declared count in front of some bytes
					n, r := encode(0, m, v.Field(0))
					if r == "ok" {
						s.dec1(g, m, sc.T, append(n, g.raw()...), 0, none)
					}
					continue
				}
				s.dec1(g, m, sc.T, out, 0, g.prior(sc.T))
				s.dec1(g, m, sc.T, g.mutate(out), 0, none)
			}
		})
	}
	// counts around the number of elements there are
	for n := 0; n < 20; n++ {
		for _, m := range modes {
			x.session(func(s *Sess, g *G) {
				for _, by := range []int{-1, 0, 1, 2} {
					e := &Sch{K: g.pick("u8", "u16", "u32", "u64", "i8", "i32", "str", "bool", "Uint64", "CustA")}
					ck := g.pick("u8", "u16", "u32", "u64", "i8", "i16", "i64", "Varuint16", "Uint64")
					t := &Sch{K: "struct", F: []Fld{{N: "N", T: &Sch{K: ck}, So: "D", Big: g.one(2)}, {N: "D", T: &Sch{K: "slice", E: e}}}}
					if g.one(2) {
						t.F = append(t.F, Fld{N: "Z", T: &Sch{K: "u16"}})
					}
					if g.one(4) {
						t.F[1].T = &Sch{K: "ptr", E: t.F[1].T}
					}
					v := reflect.New(typeOf(t)).Elem()
					setVal(t.F[0].T, v.Field(0), le(uint64(n+by), widths[ck]))
					d := v.Field(1)
					if d.Kind() == reflect.Ptr {
						d.Set(reflect.New(d.Type().Elem()))
						d = d.Elem()
					}
					d.Set(reflect.MakeSlice(d.Type(), n, n+g.r.Intn(3)))
					for i := 0; i < n; i++ {
						g.fill(e, d.Index(i))
					}
					out := s.enc1(g, m, t, v)
					// as much data, or an element more or less
					v2 := reflect.New(typeOf(t)).Elem()
					v2.Set(v)
					setVal(t.F[0].T, v2.Field(0), le(uint64(n), widths[ck]))
					if out, _ = encode(0, m, v2); out != nil {
						hdr, _ := encode(0, m, v.Field(0))
						if t.F[0].Big && m != "borsh" || out == nil {
							hdr = nil
						}
						if hdr != nil && len(hdr) <= len(out) {
							s.dec1(g, m, t, append(append([]byte{}, hdr...), out[len(hdr):]...), 0, g.prior(t))
						}
						s.dec1(g, m, t, out, 0, none)
					}
				}
			})
		}
	}
	x.random(x.size(300, 15000), func(s *Sess, g *G) {
		t := &Sch{K: "struct", F: []Fld{}}
		names := []string{"D0", "D1", "D2"}
		side := "S"
		if g.one(2) { // names that differ little
			for i, k := range g.r.Perm(len(nearNames))[:3] {
				names[i] = nearNames[k]
			}
		}
		for i := 0; i < 1+g.r.Intn(3); i++ {
			k := g.pick("u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "Varuint16", "Varint16", "Varuint32", "Varint32", "Uint64", "Int64")
			c := Fld{N: fmt.Sprintf("N%d", i), T: &Sch{K: k}, So: names[i], Big: g.one(2)}
			t.F = append(t.F, c)
			if g.one(3) {
				t.F = append(t.F, Fld{N: fmt.Sprintf("X%d", i), T: g.leaf()})
			}
		}
		for _, c := range append([]Fld{}, t.F...) {
			if c.So == "" {
				continue
			}
			l := Fld{N: c.So, T: &Sch{K: "slice", E: g.wideSch(1)}}
			switch g.r.Intn(5) {
			case 0:
				l.T = &Sch{K: "ptr", E: l.T}
			case 1:
				l.Opt = true
			}
			twin := g.pick(side+c.So, strings.ToUpper(c.So), c.So+"2")
			unlinked := Fld{N: twin, T: &Sch{K: "slice", E: &Sch{K: "u8"}}}
			if g.one(3) && !t.has(twin) && twin != c.So && !in(names, twin) {
				t.F = append(t.F, unlinked)
			}
			t.F = append(t.F, l)
			if g.one(3) && !t.has(side+c.So) {
				t.F = append(t.F, Fld{N: side + c.So, T: &Sch{K: "slice", E: &Sch{K: "u8"}}})
			}
		}
		m := g.mode()
		v := g.value(t, 10)
		if g.one(3) { // another count than the slice holds
			for i, f := range t.F {
				if f.So != "" && g.one(2) {
					setVal(f.T, v.Field(i), bs(g.rawInt(widths[f.T.K])))
				}
			}
		}
		s.both(g, m, t, v, 2)
	})
	for _, n := range []string{"Sized", "SizedPtr", "SizedOpt"} {
		t := schemaOf(catalogue[n])
		x.random(x.size(20, 500), func(s *Sess, g *G) {
			s.both(g, g.mode(), t, g.value(t, 12), 2)
		})
	}
}

func p19(x *X) {
	x.twins(x.size(6, 200))
	cutAll := func(s *Sess, g *G, m string, t *Sch, v reflect.Value, every int) {
		out := s.enc1(g, m, t, v)
		if out == nil || len(out) > 120 {
			return
		}
		for k := 0; k <= len(out); k++ {
			if every > 1 && g.r.Intn(every) != 0 && k < len(out) {
				continue
			}
			prior := none
			if g.one(2) {
				prior = g.prior(t)
			}
			s.dec1(g, m, t, out[:k:k], 0, prior)
		}
	}
	for _, sc := range x.pick(150, 0) {
		x.session(func(s *Sess, g *G) {
			for _, m := range modes {
				cutAll(s, g, m, sc.T, sc.value(), x.size(2, 1))
			}
		})
	}
	x.random(x.size(80, 5000), func(s *Sess, g *G) {
		t := &Sch{K: "struct", F: []Fld{}}
		n := 1 + g.r.Intn(4)
		from := g.r.Intn(n)
		for i := 0; i < n; i++ {
			f := Fld{N: fmt.Sprintf("F%d", i), T: g.sch(1), Ext: i >= from, Big: g.one(3), Opt: g.one(5)}
			t.F = append(t.F, f)
		}
		cutAll(s, g, g.mode(), t, g.value(t, 5), 1)
	})
	// an ordinary field behind an extension field
	x.random(x.size(60, 1000), func(s *Sess, g *G) {
		t := &Sch{K: "struct", F: []Fld{}}
		n := 2 + g.r.Intn(4)
		at := g.r.Intn(n - 1)
		for i := 0; i < n; i++ {
			t.F = append(t.F, Fld{N: fmt.Sprintf("F%d", i), T: &Sch{K: g.pick(scalarKs...)}, Ext: i == at || i > at+1 && g.one(2), Big: g.one(3)})
		}
		m := g.mode()
		out := s.enc1(g, m, t, g.value(t, 5))
		if out == nil {
			return
		}
		how := g.r.Intn(4)
		for _, data := range [][]byte{out, append(append([]byte{}, out...), g.fuzzBytes()...), out[:g.r.Intn(len(out)+1)]} {
			r := try(func() error { return newDec(m, data, how).Decode(reflect.New(typeOf(t)).Interface()) })
			s.add("misext", obj{"m": m, "t": t, "n": len(data)}, obj{"refused": r != "ok"})
		}
	})
	for _, n := range []string{"Ext", "Ext1", "ExtOpt"} {
		t := schemaOf(catalogue[n])
		x.random(x.size(6, 200), func(s *Sess, g *G) {
			cutAll(s, g, g.mode(), t, g.value(t, 5), 1)
		})
	}
}

// ---------------------------------------------------------------------

var variantBases = []reflect.Type{reflect.TypeOf(Inner{}), reflect.TypeOf(Emb{}), reflect.TypeOf(Opts{}), reflect.TypeOf(CustA{}),
	reflect.TypeOf(NU32(0)), reflect.TypeOf(EnumC{}), reflect.TypeOf(NStr("")), reflect.TypeOf(Ext1{}), reflect.TypeOf(bin.Uint128{})}
var idEncs = map[string]bin.TypeIDEncoding{"uvarint": bin.Uvarint32TypeIDEncoding, "u32": bin.Uint32TypeIDEncoding, "u8": bin.Uint8TypeIDEncoding,
	"anchor": bin.AnchorTypeIDEncoding, "none": bin.NoTypeIDEncoding}

// alikeNames: distinct names that differ little
var alikeNames = []string{"mint", "Mint", "MINT", "mint ", " mint", "min", "mint_to", "mintTo", "mint-to", "", "m\u0131nt", "mi\u0301nt", "m\u00ednt", "mint\x00"}

func p20(x *X) {
	one := func(s *Sess, g *G, enc string, n int) {
		base := []reflect.Type{}
		for k := 1 + g.r.Intn(3); k > 0; k-- {
			base = append(base, variantBases[g.r.Intn(len(variantBases))])
		}
		if n < len(base) {
			base = base[:n]
		}
		ptrs := make([]int, n)
		names := make([]string, n)
		types := make([]bin.VariantType, n)
		alike, off := g.one(3), g.r.Intn(len(alikeNames))
		for i := range types {
			b := base[i%len(base)]
			names[i] = fmt.Sprintf("%s%d", g.pick("do_", "x", "Init"), i)
			if alike && i < len(alikeNames) {
				names[i] = alikeNames[(i+off)%len(alikeNames)]
			}
			ptrs[i] = g.r.Intn(3)
			var t interface{}
			switch ptrs[i] {
			case 0:
				t = reflect.Zero(b).Interface()
			case 1:
				t = reflect.Zero(reflect.PtrTo(b)).Interface() // (*T)(nil)
			default:
				t = reflect.New(b).Interface()
			}
			types[i] = bin.VariantType{Name: names[i], Type: t}
		}
		var def *bin.VariantDefinition
		if r := try(func() error { def = bin.NewVariantDefinition(idEncs[enc], types); return nil }); r != "ok" {
			s.add("tot", obj{"n": 0}, obj{"r": r, "pos": 0, "rem": 0})
			return
		}
		jnames := list{}
		for _, nm := range names {
			jnames = append(jnames, bs(nm))
		}
		ids := list{}
		for _, nm := range names {
			id := bin.TypeID{}
			try(func() error { id = def.TypeID(nm); return nil })
			ids = append(ids, cp(id[:]))
		}
		if enc != "u8" || n <= 256 {
			s.add("varid", obj{"enc": enc, "names": jnames}, obj{"ids": ids})
		}
		isPtr := list{}
		for i := range types {
			isPtr = append(isPtr, ptrs[i] > 0)
		}
		jbase := list{}
		for _, b := range base {
			jbase = append(jbase, schemaOf(b))
		}
		// one variant decoded into again and again, or a new one each time; what
		// came out is read when all is done
		again := &bin.BaseVariant{}
		if g.one(2) {
			again = nil
		}
		var emit []func()
		for k := 0; k < 4; k++ {
			i := g.r.Intn(n + n/8 + 1)
			if g.one(3) {
				i = []int{0, n - 1, n, 127, 128, 255, 256, 300}[g.r.Intn(8)]
			}
			var data []byte
			switch enc {
			case "uvarint":
				data = countPrefix("bin", uint64(i))
				if g.one(8) { // long form of the same number
					data[len(data)-1] |= 0x80
					data = append(data, 0)
				}
				if g.one(6) { // more than the number
					data = countPrefix("bin", uint64(i)|uint64(1)<<uint(7+g.r.Intn(56)))
				}
			case "u32":
				data = le(uint64(i), 4)
				if g.one(4) {
					k := 7 + g.r.Intn(25)
					data[k/8] |= 1 << uint(k%8)
				}
			case "u8":
				data = []byte{byte(i)}
			case "anchor":
				if i < n {
					data = bin.Sighash(bin.SIGHASH_GLOBAL_NAMESPACE, names[i])
				} else {
					data = make([]byte, 8)
					g.r.Read(data)
				}
			}
			m := g.mode()
			if i < n {
				b := base[i%len(base)]
				t := schemaOf(b)
				out, _ := encode(0, m, g.value(t, 6))
				data = append(data, out...)
			}
			switch g.r.Intn(6) {
			case 0:
				data = data[:g.r.Intn(len(data)+1)]
			case 1:
				data = append(data, g.raw()...)
			case 2:
				data = g.mutate(data)
			}
			v := &bin.BaseVariant{}
			if g.one(3) {
				v.Assign(bin.TypeIDFromUint8(9), "old")
			}
			if again != nil {
				v = again
			}
			d := newDec(m, data, k)
			r := try(func() error { return v.UnmarshalBinaryVariant(d, def) })
			o := obj{"r": r, "id": bs{}, "name": bs{}, "pos": clamp(int64(d.Position())), "bi": 0, "ptr": false, "v": list{}}
			var id bin.TypeID
			var name string
			var impl interface{}
			if r == "ok" {
				id, name, impl = v.Obtain(def)
			}
			emit = append(emit, func() {
				if r == "ok" {
					o["id"], o["name"] = cp(id[:]), bs(name)
					rv := reflect.ValueOf(impl)
					if rv.IsValid() && rv.Kind() == reflect.Ptr {
						o["ptr"] = true
						rv = rv.Elem()
					}
					if rv.IsValid() {
						for bi, b := range base {
							if b == rv.Type() {
								o["bi"] = bi + 1
								o["v"] = valOf(schemaOf(b), rv)
								// the same type may be registered twice
								if bi+1 != want(enc, names, data, len(base)) && samebase(base, bi, want(enc, names, data, len(base))) {
									o["bi"] = want(enc, names, data, len(base))
								}
								break
							}
						}
					}
				}
				s.add("var", obj{"m": m, "enc": enc, "names": jnames, "base": jbase, "ptrs": isPtr, "data": bs(data)}, o)
			})
		}
		for _, f := range emit {
			f()
		}
	}
	for _, enc := range []string{"uvarint", "u32", "u8", "anchor", "none"} {
		x.random(x.size(50, 1500), func(s *Sess, g *G) {
			n := 1 + g.r.Intn(4)
			if enc == "none" {
				n = 1
			}
			one(s, g, enc, n)
		})
	}
	for _, n := range []int{127, 128, 129, 200, 255, 256, 257, 300} {
		for _, enc := range []string{"uvarint", "u32", "u8"} {
			if enc == "u8" && n > 256 {
				continue
			}
			for k := 0; k < x.size(1, 10); k++ {
				x.session(func(s *Sess, g *G) { one(s, g, enc, n) })
			}
		}
	}
	x.random(x.size(250, 8000), func(s *Sess, g *G) {
		v := g.rawInt(4)
		if g.one(2) {
			v = le(uint64(1)<<uint(g.r.Intn(32))-uint64(g.r.Intn(2)), 4)
		}
		n := uint32(unle(v))
		r := try(func() error {
			id := bin.TypeIDFromUint8(v[0])
			s.add("tid", obj{"f": "u8", "v": bs(v[:1]), "big": false}, obj{"id": cp(id[:]), "back": bs{bin.Uint8FromTypeID(id)}, "self": bs{id.Uint8()}})
			big := g.one(2)
			id = bin.TypeIDFromUint32(n, order(big))
			s.add("tid", obj{"f": "u32", "v": bs(v), "big": big}, obj{"id": cp(id[:]), "back": le(uint64(bin.Uint32FromTypeID(id, order(big))), 4), "self": le(uint64(id.Uint32()), 4)})
			id = bin.TypeIDFromUvarint32(n)
			s.add("tid", obj{"f": "uvarint", "v": bs(v), "big": false}, obj{"id": cp(id[:]), "back": le(uint64(bin.Uvarint32FromTypeID(id)), 4), "self": le(uint64(id.Uvarint32()), 4)})
			b := g.rawInt(8)[:g.r.Intn(9)]
			id = bin.TypeIDFromBytes(b)
			pad := append(append([]byte{}, b...), make([]byte, 8-len(b))...)
			neq := append([]byte{}, pad...)
			neq[g.r.Intn(8)] ^= 1 << uint(g.r.Intn(8))
			s.add("tid", obj{"f": "bytes", "v": bs(b), "big": false}, obj{"id": cp(id[:]), "back": cp(id.Bytes()), "eq": id.Equal(pad) && !id.Equal(neq) && !id.Equal(pad[:g.r.Intn(8)]) && !id.Equal(pad[:len(bytes.TrimRight(pad[:7], "\x00"))]) && !id.Equal(append(append([]byte{}, pad...), 0)) && !id.Equal(nil) && bin.TypeIDFromSighash(pad) == id})
			return nil
		})
		if r != "ok" {
			s.add("tot", obj{"n": 0}, obj{"r": r, "pos": 0, "rem": 0})
		}
	})
}

// want: which base position the registered index has, when several are the
// same Go type (only to name the type, not to judge it)
func want(enc string, names []string, data []byte, nb int) int {
	i := -1
	switch enc {
	case "uvarint":
		n, k := binary.Uvarint(data)
		if k > 0 {
			i = int(n)
		}
	case "u32":
		if len(data) >= 4 {
			i = int(unle(data[:4]))
		}
	case "u8":
		if len(data) > 0 {
			i = int(data[0])
		}
	case "anchor":
		for j, n := range names {
			if len(data) >= 8 && bytes.Equal(bin.Sighash(bin.SIGHASH_GLOBAL_NAMESPACE, n), data[:8]) {
				i = j
			}
		}
	case "none":
		i = 0
	}
	if i < 0 || i >= len(names) {
		return 0
	}
	return i%nb + 1
}
func samebase(base []reflect.Type, bi, w int) bool {
	return w > 0 && w <= len(base) && base[w-1] == base[bi]
}

// ---------------------------------------------------------------------

func p21(x *X) {
	orders := []binary.ByteOrder{nil, binary.LittleEndian, binary.BigEndian}
	one := func(s *Sess, g *G, k string, b []byte) {
		lo, hi := unle(b[:8]), unle(b[8:])
		own, jown := orders[g.r.Intn(3)], orders[g.r.Intn(3)]
		m := g.mode()
		o := obj{"big": bs{}, "dec": bs{}, "bytes": bs{}, "str": bs{}, "hex": bs{}, "json": bs{}, "back": bs{}, "le": bs{}, "be": bs{}, "rle": bs{}, "rbe": bs{}, "own": bs{}, "rown": bs{}, "jw": bs{}}
		o["r"] = try(func() error {
			var err error
			var js []byte
			var enc func(big bool) ([]byte, error)
			var dec func(big bool, d []byte) (bs, error)
			w := func(f func(e *bin.Encoder) error) ([]byte, error) {
				p := &plain{}
				err := f(newEnc(m, p, g.r.Intn(2)))
				return p.got, err
			}
			var ownV, ownD interface{}
			var afterJ bin.BinaryMarshaler
			ownOut := func() bs { return nil }
			switch k {
			case "Uint128":
				v := bin.Uint128{Lo: lo, Hi: hi, Endianness: own}
				o["big"], o["dec"], o["bytes"], o["str"], o["hex"] = bs(v.BigInt().String()), bs(v.DecimalString()), cp(v.Bytes()), bs(v.String()), bs(v.HexString())
				js, err = jsonOf(g, v)
				back := bin.Uint128{Endianness: jown}
				if e := jsonInto(g, js, &back); e != nil {
					return e
				}
				o["back"] = pair(back.Lo, back.Hi)
				afterJ = back
				enc = func(big bool) ([]byte, error) {
					return w(func(e *bin.Encoder) error { return e.WriteUint128(v, order(big)) })
				}
				dec = func(big bool, d []byte) (bs, error) {
					y, e := newDec(m, d, 0).ReadUint128(order(big))
					return pair(y.Lo, y.Hi), e
				}
				dst := &bin.Uint128{Endianness: own, Lo: 77}
				ownV, ownD, ownOut = v, dst, func() bs { return pair(dst.Lo, dst.Hi) }
			case "Int128":
				v := bin.Int128{Lo: lo, Hi: hi, Endianness: own}
				o["big"], o["dec"] = bs(v.BigInt().String()), bs(v.DecimalString())
				js, err = jsonOf(g, v)
				back := bin.Int128{Endianness: jown}
				if e := jsonInto(g, js, &back); e != nil {
					return e
				}
				o["back"] = pair(back.Lo, back.Hi)
				afterJ = back
				enc = func(big bool) ([]byte, error) {
					return w(func(e *bin.Encoder) error { return e.WriteInt128(v, order(big)) })
				}
				dec = func(big bool, d []byte) (bs, error) {
					y, e := newDec(m, d, 0).ReadInt128(order(big))
					return pair(y.Lo, y.Hi), e
				}
				dst := &bin.Int128{Endianness: own, Lo: 77}
				ownV, ownD, ownOut = v, dst, func() bs { return pair(dst.Lo, dst.Hi) }
			default:
				v := bin.Float128{Lo: lo, Hi: hi, Endianness: own}
				js, err = jsonOf(g, v)
				back := bin.Float128{Endianness: jown}
				if e := jsonInto(g, js, &back); e != nil {
					return e
				}
				o["back"] = pair(back.Lo, back.Hi)
				afterJ = back
				enc = func(big bool) ([]byte, error) {
					return w(func(e *bin.Encoder) error { return e.WriteUint128(bin.Uint128{Lo: lo, Hi: hi}, order(big)) })
				}
				dec = func(big bool, d []byte) (bs, error) {
					y, e := newDec(m, d, 0).ReadFloat128(order(big))
					return pair(y.Lo, y.Hi), e
				}
				dst := &bin.Float128{Endianness: own, Lo: 77}
				ownV, ownD, ownOut = v, dst, func() bs { return pair(dst.Lo, dst.Hi) }
			}
			if err != nil {
				return err
			}
			o["json"] = bs(js)
			l, e1 := enc(false)
			bb, e2 := enc(true)
			if e1 != nil || e2 != nil {
				return errors.New("write")
			}
			o["le"], o["be"] = cp(l), cp(bb)
			rl, e1 := dec(false, l)
			rb, e2 := dec(true, bb)
			if e1 != nil || e2 != nil {
				return errors.New("read")
			}
			o["rle"], o["rbe"] = rl, rb
			// the codec methods called directly: no field, so no field order
			p := &plain{}
			if err := ownV.(bin.BinaryMarshaler).MarshalWithEncoder(newEnc(m, p, g.r.Intn(2))); err != nil {
				return err
			}
			o["own"] = cp(p.got)
			pj := &plain{}
			if err := afterJ.MarshalWithEncoder(newEnc(m, pj, g.r.Intn(2))); err != nil {
				return err
			}
			o["jw"] = cp(pj.got)
			if err := ownD.(bin.BinaryUnmarshaler).UnmarshalWithDecoder(newDec(m, p.got, 0)); err != nil {
				return err
			}
			o["rown"] = ownOut()
			return nil
		})
		s.add("u128", obj{"k": k, "v": cp(b), "big": own == binary.BigEndian, "jbig": jown == binary.BigEndian}, o)
	}
	ks := []string{"Uint128", "Int128", "Float128"}
	for i := 0; i < 128; i++ {
		x.session(func(s *Sess, g *G) {
			for _, k := range ks {
				b := make([]byte, 16)
				b[i/8] = 1 << uint(i%8)
				one(s, g, k, b)
				for j := 0; j < i/8; j++ {
					b[j] = 0xff
				}
				one(s, g, k, b)
				for j := range b { // minus a power of two
					b[j] ^= 0xff
				}
				one(s, g, k, b)
			}
		})
	}
	x.random(x.size(200, 10000), func(s *Sess, g *G) {
		for _, k := range ks {
			one(s, g, k, g.rawInt(16))
		}
	})
	x.random(x.size(500, 10000), func(s *Sess, g *G) {
		s.jin(g, ks[g.r.Intn(3)], g.jsonText(128))
	})
	// fields tagged big, slices, options
	for _, sc := range x.pick(200, 0) {
		x.session(func(s *Sess, g *G) {
			for _, m := range modes {
				s.both(g, m, sc.T, sc.value(), 1)
			}
		})
	}
	x.random(x.size(150, 4000), func(s *Sess, g *G) {
		t := &Sch{K: "struct", F: []Fld{}}
		for i := 0; i < 4; i++ {
			ft := &Sch{K: ks[g.r.Intn(3)]}
			switch g.r.Intn(5) {
			case 0:
				ft = &Sch{K: "ptr", E: ft}
			case 1:
				ft = &Sch{K: "slice", E: ft}
			case 2:
				ft = &Sch{K: "arr", N: 2, E: ft}
			}
			t.F = append(t.F, Fld{N: fmt.Sprintf("F%d", i), T: ft, Big: g.one(2), Opt: g.one(4)})
		}
		s.both(g, g.mode(), t, g.value(t, 4), 1)
	})
}

func jsonOf(g *G, v json.Marshaler) ([]byte, error) {
	if g.one(2) {
		return v.MarshalJSON()
	}
	return json.Marshal(v)
}

func jsonInto(g *G, text []byte, p interface{}) error {
	if u, ok := p.(json.Unmarshaler); ok && g.one(2) && json.Valid(text) {
		return u.UnmarshalJSON(text)
	}
	return json.Unmarshal(text, p)
}

// jin: JSON text into a helper type
func (s *Sess) jin(g *G, k string, text []byte) {
	dst := reflect.New(exactByName[k])
	r := try(func() error { return jsonInto(g, text, dst.Interface()) })
	s.add("jin", obj{"k": k, "text": bs(text)}, obj{"r": r, "v": orEmpty(r, func() interface{} { return jval(k, dst.Elem()) })})
}

func jval(k string, v reflect.Value) interface{} {
	if k == "HexBytes" {
		return bytesOf(v)
	}
	return valOf(&Sch{K: k}, v)
}

func (g *G) digits(max int) []byte {
	n := 1 + g.r.Intn(max)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + g.r.Intn(10))
	}
	if n > 1 && b[0] == '0' {
		b[0] = '1'
	}
	return b
}

var edgeNums = []string{"0", "1", "9", "10", "255", "256", "4294967295", "4294967296", "4294967294", "2147483647", "2147483648", "9223372036854775807", "9223372036854775808",
	"9223372036854775806", "18446744073709551615", "18446744073709551616", "18446744073709551614", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456",
	"340282366920938463463374607431768211454", "170141183460469231731687303715884105727", "170141183460469231731687303715884105728", "99999999999999999999999999999999999999999",
	"9007199254740993", "9007199254740992", "123456789012345678", "36893488147419103232", "18446744073709551617"}

// jsonText: numbers in and out of range, quoted and not, and junk
func (g *G) jsonText(bits int) []byte {
	var t []byte
	switch g.r.Intn(10) {
	case 0, 1, 2:
		t = []byte(edgeNums[g.r.Intn(len(edgeNums))])
	case 3, 4:
		t = g.digits(9)
	case 5:
		t = g.digits(45)
		if g.one(2) { // sixteen bytes
			t = []byte(g.pick("0x", "0X"))
			for len(t) < 34 {
				t = append(t, "0123456789abcdefABCDEF"[g.r.Intn(22)])
			}
		}
	case 6:
		t = g.digits(20)
	case 7:
		t = []byte([]string{"", " ", "abc", "12x4", "0x", "0x12", "1 2", "-", "--1", "g", "1,5", "null", "true", "zz", "0xzz0102030405060708090a0b0c0d0e0f", "1.5", ".5", "#", "0x0102030405060708090a0b0c0d0e0f10"}[g.r.Intn(19)])
	case 8: // other notations
		t = g.digits(9)
		switch g.r.Intn(3) {
		case 0:
			i := g.r.Intn(len(t) + 1)
			t = append(append(append([]byte{}, t[:i]...), "_ x.eEabfopX,'Ll+-%"[g.r.Intn(18)]), t[i:]...)
		case 1:
			t = append([]byte(g.pick("0x", "0b", "0o", "0X", " ", "  ", "$", "#", "0", "00")), t...)
		default:
			t = append(t, g.pick(" ", "  ", "_", "n", "L", "u", "e0", "e1", ".0", ".", "h", "%")...)
		}
	default:
		t = []byte([]string{"true", "false", "[1]", "{}", "\"\"", "[]", "{\"a\":1}"}[g.r.Intn(7)])
		return t
	}
	if g.one(4) && len(t) > 0 && t[0] >= '0' && t[0] <= '9' && string(t) != "0" {
		t = append([]byte("-"), t...)
	}
	if !g.one(4) {
		if g.one(6) {
			t = g.escape(t)
		}
		t = append(append([]byte(`"`), t...), '"')
	}
	return t
}

// escape: some characters by their number, as JSON strings may
func (g *G) escape(t []byte) (out []byte) {
	for _, c := range t {
		if g.one(3) && c > ' ' && c < 127 && c != '"' && c != '\\' {
			out = append(out, fmt.Sprintf(g.pick(`\u%04x`, `\u%04X`), c)...)
		} else {
			out = append(out, c)
		}
	}
	return
}

func p22(x *X) {
	one := func(s *Sess, g *G, k string, v reflect.Value) {
		var text []byte
		r := try(func() (err error) { text, err = jsonOf(g, v.Interface().(json.Marshaler)); return })
		o := obj{"r": r, "text": cp(text), "br": "none", "back": bs{}}
		if r == "ok" {
			dst := reflect.New(v.Type())
			br := try(func() error { return jsonInto(g, text, dst.Interface()) })
			o["br"] = br
			if br == "ok" {
				o["back"] = jval(k, dst.Elem())
			}
		}
		s.add("jout", obj{"k": k, "v": jval(k, v)}, o)
	}
	mk := func(k string, b []byte) reflect.Value {
		v := reflect.New(exactByName[k]).Elem()
		setVal(&Sch{K: k}, v, bs(b))
		return v
	}
	for i := uint(0); i < 64; i++ {
		x.session(func(s *Sess, g *G) {
			for _, k := range []string{"Uint64", "Int64"} {
				for _, n := range []uint64{1 << i, 1<<i - 1, 1<<i + 1, -(1 << i), -(1 << i) - 1, -(1 << i) + 1} {
					one(s, g, k, mk(k, le(n, 8)))
				}
			}
		})
	}
	x.random(x.size(300, 10000), func(s *Sess, g *G) {
		one(s, g, "Uint64", mk("Uint64", g.rawInt(8)))
		one(s, g, "Int64", mk("Int64", g.rawInt(8)))
		h := reflect.New(exactByName["HexBytes"]).Elem()
		h.SetBytes(g.raw())
		one(s, g, "HexBytes", h)
	})
	x.random(x.size(1500, 30000), func(s *Sess, g *G) {
		k := g.pick("Uint64", "Int64", "Bool", "JSONFloat64", "HexBytes")
		t := g.jsonText(64)
		if k == "HexBytes" && g.one(2) {
			t = []byte(`"` + hexs(g.raw()) + `"`)
			if g.one(3) {
				t = []byte(strings.ToUpper(string(t)))
			}
			if g.one(4) && len(t) > 2 {
				t[1+g.r.Intn(len(t)-2)] = []byte("gz0 -")[g.r.Intn(5)]
			}
			if g.one(6) && len(t) > 3 {
				t = append(t[:1], t[2:]...)
			}
			if g.one(6) {
				t = append(append([]byte(`"`), g.escape(t[1:len(t)-1])...), '"')
			}
		}
		s.jin(g, k, t)
	})
	// quoted and unquoted forms
	x.random(x.size(400, 10000), func(s *Sess, g *G) {
		k := g.pick("Uint64", "Int64", "JSONFloat64")
		t := g.digits(22)
		switch g.r.Intn(6) {
		case 0:
			t = []byte(edgeNums[g.r.Intn(len(edgeNums))])
		case 1:
			t = append(append(t, '.'), g.digits(6)...)
		case 2:
			t = append(append(t, 'e'), g.digits(2)...)
		case 3:
			t = append(append(append(t, '.'), g.digits(3)...), []byte("E-"+string(g.digits(2)))...)
		}
		if g.one(3) {
			t = append([]byte("-"), t...)
		}
		a, b := reflect.New(exactByName[k]), reflect.New(exactByName[k])
		ra := try(func() error { return jsonInto(g, []byte(`"`+string(t)+`"`), a.Interface()) })
		rb := try(func() error { return jsonInto(g, t, b.Interface()) })
		s.add("jpair", obj{"k": k, "text": bs(t)}, obj{"q": obj{"r": ra, "v": jval(k, a.Elem())}, "u": obj{"r": rb, "v": jval(k, b.Elem())}})
	})
}

// ---------------------------------------------------------------------

func chars(s string) list {
	out := list{}
	for _, c := range s {
		out = append(out, obj{"c": int(c), "an": unicode.IsLetter(c) || unicode.IsDigit(c), "up": unicode.IsUpper(c), "lo": unicode.IsLower(c),
			"tl": int(unicode.ToLower(c)), "tu": int(unicode.ToUpper(c))})
	}
	return out
}

func points(s string) []int {
	out := []int{}
	for _, c := range s {
		out = append(out, int(c))
	}
	return out
}

func p23(x *X) {
	one := func(s *Sess, name string) {
		o := obj{}
		r := try(func() error {
			o["snake"], o["snake2"], o["pascal"] = points(bin.ToRustSnakeCase(name)), points(bin.ToSnakeForSighash(name)), points(bin.ToPascalCase(name))
			o["si"] = own(func() []byte { return bin.SighashInstruction(name) })
			o["sa"] = own(func() []byte { return bin.SighashAccount(name) })
			o["twice"] = points(bin.ToRustSnakeCase(bin.ToRustSnakeCase(name)))
			return nil
		})
		if r != "ok" {
			o = obj{"snake": []int{-1}, "snake2": []int{-1}, "pascal": []int{-1}, "si": bs{}, "sa": bs{}, "twice": []int{-1}}
		}
		s.add("case", obj{"s": chars(name)}, o)
	}
	// every string up to length 4 (5) over one character of each class
	alpha := []rune{'a', 'B', '7', '_', 'é', 'Ж', ' '}
	if x.thorough() {
		alpha = append(alpha, 'c', 'D', '-')
	}
	var words []string
	var build func(p string, n int)
	build = func(p string, n int) {
		words = append(words, p)
		if n == 0 {
			return
		}
		for _, c := range alpha {
			build(p+string(c), n-1)
		}
	}
	build("", x.size(3, 4))
	for i := 0; i < len(words); i += 10 {
		x.session(func(s *Sess, g *G) {
			for j := i; j < i+10 && j < len(words); j++ {
				one(s, words[j])
			}
		})
	}
	pool := []rune("abcxyzABCXYZ0129__- .:/éÉßøØжЖЯλΛΣσ界字ǅĳ\u200d٣\U00010400\U00010428")
	x.random(x.size(150, 8000), func(s *Sess, g *G) {
		for k := 0; k < 3; k++ {
			n := g.r.Intn(14)
			var b []rune
			for len(b) < n {
				if g.one(2) {
					b = append(b, pool[g.r.Intn(20)])
				} else {
					b = append(b, pool[g.r.Intn(len(pool))])
				}
			}
			one(s, string(b))
		}
	})
	for _, n := range realNames {
		x.session(func(s *Sess, g *G) { one(s, n) })
	}
	x.random(x.size(60, 2000), func(s *Sess, g *G) {
		ns := g.pick("global", "account", "state", "event", "", "a:b", string(g.text()))
		name := string(g.text())
		if g.one(2) {
			name = string(g.raw())
		}
		o := obj{"h": bs{}, "id": bs{}}
		try(func() error {
			o["h"] = own(func() []byte { return bin.Sighash(ns, name) })
			id := bin.SighashTypeID(ns, name)
			o["id"] = cp(id[:])
			return nil
		})
		s.add("hash", obj{"ns": bs(ns), "name": bs(name)}, o)
	})
	// long texts, around the block sizes of the hash
	for _, n := range []int{40, 54, 55, 56, 62, 63, 64, 65, 100, 118, 119, 120, 121, 127, 128, 129, 130, 183, 200, 256, 300, 520} {
		x.session(func(s *Sess, g *G) {
			text := make([]byte, n)
			for i := range text {
				text[i] = "abcxyz_019"[g.r.Intn(10)]
			}
			k := g.r.Intn(7)
			for _, w := range []string{string(text), string(text[:n-1]) + "Q"} {
				ns, name := w[:k], w[k:]
				o := obj{"h": bs{}, "id": bs{}}
				try(func() error {
					o["h"] = own(func() []byte { return bin.Sighash(ns, name) })
					id := bin.SighashTypeID(ns, name)
					o["id"] = cp(id[:])
					return nil
				})
				s.add("hash", obj{"ns": bs(ns), "name": bs(name)}, o)
			}
			if n < 140 {
				one(s, string(text))
			}
		})
	}
	// one text cut at different places
	x.random(x.size(40, 1000), func(s *Sess, g *G) {
		text := g.pick("global:a:b:c", "account::x", "a:b", "ab:", "::::", "globalaccount", "state:"+string(g.text())+":x")
		for k := 0; k < 5; k++ {
			i := g.r.Intn(len(text) + 1)
			j := i
			if g.one(2) && i < len(text) {
				j++
			}
			ns, name := text[:i], text[j:]
			o := obj{"h": bs{}, "id": bs{}}
			try(func() error {
				o["h"] = own(func() []byte { return bin.Sighash(ns, name) })
				id := bin.SighashTypeID(ns, name)
				o["id"] = cp(id[:])
				return nil
			})
			s.add("hash", obj{"ns": bs(ns), "name": bs(name)}, o)
		}
	})
}

var realNames = []string{"initialize", "createUser", "TransferNFT", "swapV2", "init_USDC_pool", "set2FAKey", "HTTPServer", "aB", "ABc", "ABC", "a1B2", "IDLAccount", "myXMLHttpRequest",
	"__lead", "trail__", "a__b", "x", "X", "9lives", "v1_0", "Ünïcode", "éÀÉ", "NASDAQ100Index", "iOS", "camelCase", "SCREAMING_CASE", "kebab-case-name", "dot.case.Name", "Mixed_caseName9X"}

// ---------------------------------------------------------------------

func byteCount(m string, v interface{}) (uint64, error) {
	switch m {
	case "bin":
		return bin.BinByteCount(v)
	case "c16":
		return bin.CompactU16ByteCount(v)
	}
	return bin.BorshByteCount(v)
}
func countOf(m string, v interface{}) (n uint64, r string) {
	r = try(func() (err error) { n, err = byteCount(m, v); return })
	return
}

func mustCount(m string, v interface{}) uint64 {
	switch m {
	case "bin":
		return bin.MustBinByteCount(v)
	case "c16":
		return bin.MustCompactU16ByteCount(v)
	}
	return bin.MustBorshByteCount(v)
}

// scribbler keeps what it is given and then overwrites the slice, as a writer
// that reuses memory does only after Write has returned; here it just copies.
func p24(x *X) {
	one := func(s *Sess, g *G, m string, t *Sch, v reflect.Value) []byte {
		arg := v.Interface()
		if g.one(2) {
			arg = v.Addr().Interface()
		}
		val := valOf(t, v)
		var out []byte
		r1 := try(func() (err error) { out, err = marshal(m, arg); return })
		w := &plain{}
		e := newEnc(m, w, g.r.Intn(2))
		r2 := try(func() error { return e.Encode(arg) })
		rec := bin.NewWriteByWrite("rec")
		e3 := newEnc(m, rec, g.r.Intn(2))
		r3 := try(func() error { return e3.Encode(arg) })
		var n uint64
		r4 := try(func() (err error) { n, err = byteCount(m, arg); return })
		var n5 uint64
		r5 := try(func() error { n5 = mustCount(m, arg); return nil })
		s.add("agree", obj{"m": m, "t": t, "v": val}, obj{
			"one":    obj{"r": r1, "out": cp(out)},
			"stream": obj{"r": r2, "out": cp(w.got), "w": clamp(int64(e.Written()))},
			"rec":    obj{"r": r3, "out": cp(rec.Bytes()), "w": clamp(int64(e3.Written()))},
			"count":  obj{"r": r4, "n": clamp(int64(n))},
			"must":   r5, "mustn": clamp(int64(n5)),
		})
		return out
	}
	dec := func(s *Sess, g *G, m string, t *Sch, data []byte) {
		if floatKeys(t) {
			return
		}
		a, b := reflect.New(typeOf(t)), reflect.New(typeOf(t))
		r1 := try(func() error { return unmarshal(m, a.Interface(), data) })
		_, r2 := decodeAt(g.r.Intn(4), m, data, 0, b)
		s.add("agreedec", obj{"m": m, "t": t, "data": bs(data)}, obj{"one": obj{"r": r1, "v": orEmpty(r1, func() interface{} { return valOf(t, a.Elem()) })},
			"stream": obj{"r": r2, "v": orEmpty(r2, func() interface{} { return valOf(t, b.Elem()) })}})
	}
	x.random(x.size(30, 1500), func(s *Sess, g *G) { s.rep(g, g.mode(), "agree") })
	for i, n := range []int{65535, 65536, 65537, 70001, 131072, 140001, 262145} {
		for _, m := range modes {
			x.session(func(s *Sess, g *G) {
				s.repOf(g, m, "agree", &Sch{K: []string{"u8", "u16", "u64", "i8"}[(i+len(m))%4]}, n)
			})
		}
	}
	x.session(func(s *Sess, g *G) { s.repOf(g, g.pick("bin", "borsh"), "agree", &Sch{K: "u8"}, 1<<24+9) })
	// many values of the same type, of different lengths
	wrap := func(how int, t *Sch) *Sch {
		switch how {
		case 0:
			return &Sch{K: "arr", N: 2, E: t}
		case 1:
			return &Sch{K: "ptr", E: t}
		case 2:
			return &Sch{K: "struct", F: []Fld{{N: "A", T: t}}}
		case 3:
			return &Sch{K: "struct", F: []Fld{{N: "A", T: &Sch{K: "u16"}}, {N: "B", T: t, Opt: true}}}
		case 4:
			return &Sch{K: "slice", E: t}
		default:
			return &Sch{K: "map", Key: &Sch{K: "u8"}, E: t}
		}
	}
	for h := 0; h < 36; h++ {
		for _, m := range modes {
			x.session(func(s *Sess, g *G) {
				t := wrap(h/6, wrap(h%6, &Sch{K: g.pick("str", "HexBytes", "SafeString", "Varuint32", "CustA", "CustL", "str", "Varint16")}))
				for k := 0; k < 6; k++ {
					one(s, g, m, t, g.value(t, 8))
				}
			})
		}
	}
	x.random(x.size(40, 1500), func(s *Sess, g *G) {
		t, m := g.anySch(), g.mode()
		for k := 0; k < 4; k++ {
			one(s, g, m, t, g.value(t, 12))
		}
	})
	for _, sc := range x.pick(900, 0) {
		x.session(func(s *Sess, g *G) {
			for _, m := range modes {
				out := one(s, g, m, sc.T, sc.value())
				dec(s, g, m, sc.T, out)
				if g.one(2) {
					dec(s, g, m, sc.T, g.mutate(out))
				}
			}
		})
	}
	x.random(x.size(400, 15000), func(s *Sess, g *G) {
		t := g.anySch()
		m := g.mode()
		g.bare = g.one(4)
		v := g.value(t, 20)
		g.bare = false
		out := one(s, g, m, t, v)
		dec(s, g, m, t, out)
		dec(s, g, m, t, g.mutate(out))
		dec(s, g, m, t, g.fuzzBytes())
		if g.one(4) { // much more than the value
			dec(s, g, m, t, append(append([]byte{}, out...), bytes.Repeat([]byte{byte(g.r.Intn(256))}, []int{1, 7, 64, 100, 300, 1000}[g.r.Intn(6)])...))
		}
	})
}

func p25(x *X) {
	for _, sc := range x.pick(900, 0) {
		if floatKeys(sc.T) {
			continue
		}
		x.session(func(s *Sess, g *G) {
			for _, m := range modes {
				out, r := encode(g.r.Intn(12), m, sc.value())
				if r != "ok" {
					continue
				}
				s.dec1(g, m, sc.T, out, 0, g.prior(sc.T))
			}
		})
	}
	x.random(x.size(700, 25000), func(s *Sess, g *G) {
		t := g.anySch()
		if floatKeys(t) {
			return
		}
		m := g.mode()
		for k := 0; k < 3; k++ {
			out, r := encode(g.r.Intn(12), m, g.value(t, 4+g.r.Intn(12)))
			if r != "ok" {
				return
			}
			if g.one(4) {
				out = g.mutate(out)
			}
			s.dec1(g, m, t, out, 0, g.prior(t))
		}
	})
	// zeros over a destination without zeros
	over := func(s *Sess, g *G, m string, t *Sch) {
		g.sparse = true
		v := g.value(t, 12)
		if g.one(4) {
			v = reflect.New(typeOf(t)).Elem()
			g.bare = false
			if g.one(2) {
				g.fillShape(t, v)
			}
		}
		g.sparse = false
		out, r := encode(g.r.Intn(12), m, v)
		if r != "ok" {
			return
		}
		g.dense = true
		prior := g.prior(t)
		g.dense = false
		s.dec1(g, m, t, out, 0, prior)
	}
	for _, k := range append(append(append([]string{"f32", "f64"}, scalarKs...), libKs...), custKs...) {
		for nm := 0; nm < 2; nm++ {
			e := &Sch{K: k}
			if nm == 1 {
				if namedK[k] == "" {
					continue
				}
				e.G = namedK[k]
			}
			for shape := 0; shape < 6; shape++ {
				x.session(func(s *Sess, g *G) {
					n := 2 + g.r.Intn(10)
					var t *Sch
					switch shape {
					case 0:
						t = &Sch{K: "arr", N: n, E: e}
					case 1:
						t = &Sch{K: "slice", E: e}
					case 2:
						t = &Sch{K: "map", Key: &Sch{K: "u8"}, E: e}
					case 3:
						t = &Sch{K: "ptr", E: e}
					case 4:
						t = &Sch{K: "struct", F: []Fld{{N: "A", T: &Sch{K: "ptr", E: e}, Opt: true}, {N: "B", T: e, Copt: true}, {N: "C", T: &Sch{K: "arr", N: n, E: e}}, {N: "D", T: e}}}
					default:
						t = &Sch{K: "arr", N: 2, E: &Sch{K: "arr", N: 3, E: e}}
					}
					if g.one(3) {
						t = &Sch{K: "struct", F: []Fld{{N: "P", T: t}, {N: "Q", T: &Sch{K: "u8"}}}}
					}
					for _, m := range modes {
						over(s, g, m, t)
						over(s, g, m, t)
					}
				})
			}
		}
	}
	x.random(x.size(300, 8000), func(s *Sess, g *G) {
		if t := g.anySch(); !floatKeys(t) {
			over(s, g, g.mode(), t)
			over(s, g, g.mode(), t)
		}
	})
}

// fillShape: a zero value whose pointers point to zero values
func (g *G) fillShape(t *Sch, v reflect.Value) {
	switch t.K {
	case "ptr":
		if !t.E.stops() {
			v.Set(reflect.New(v.Type().Elem()))
			g.fillShape(t.E, v.Elem())
		}
	case "arr":
		for i := 0; i < v.Len(); i++ {
			g.fillShape(t.E, v.Index(i))
		}
	case "struct":
		for i, f := range t.F {
			if !f.Unexp {
				g.fillShape(f.T, v.Field(i))
			}
		}
	}
}

// worn: a decoder that has been through more calls, good and failing, than
// anything may be nested deep, and is then reset
func (s *Sess) worn(g *G, ts []*Sch) {
	m := g.mode()
	t := ts[g.r.Intn(len(ts))]
	good, _ := encode(0, m, g.value(t, 4))
	bad := [][]byte{{}, good, good[:len(good)/2], g.mutate(append([]byte{}, good...))}
	s.newD(0, m, good, g.r.Intn(2))
	d, typ := s.dec[0].d, typeOf(t)
	start := time.Now()
	for k := 0; k < 11000 && time.Since(start) < 2*time.Second; k++ {
		d.Reset(bad[k%len(bad)])
		dst := reflect.New(typ).Interface()
		if try(func() error {
			if k%3 == 0 {
				return directDec(d, dst)
			}
			return d.Decode(dst)
		}) == "panic" {
			break
		}
	}
	s.reset(0, good)
	s.decode(0, t, none)
}

func p26(x *X) {
	types := func(g *G) []*Sch {
		var ts []*Sch
		for k := 0; k < 3; k++ {
			t := g.anySch()
			if !floatKeys(t) {
				ts = append(ts, t)
			}
		}
		return append(ts, g.twin(), g.twin(), schemaOf(reflect.TypeOf(Inner{})), &Sch{K: g.pick("Int64", "Uint128", "JSONFloat64", "CustO", "Uint64")}, g.leaf(),
			&Sch{K: "struct", F: []Fld{{N: "A", T: &Sch{K: g.pick("u16", "Uint64", "Int128")}, Big: true}}})
	}
	x.random(x.size(400, 12000), func(s *Sess, g *G) { s.keep(g) })
	x.deeps(x.size(14, 60), []int{900, 2500}, modes...)
	x.random(x.size(12, 100), func(s *Sess, g *G) { s.worn(g, types(g)) })
	for _, sc := range x.pick(200, 4000) {
		if floatKeys(sc.T) {
			continue
		}
		x.session(func(s *Sess, g *G) {
			m := g.mode()
			probe := &Sch{K: g.pick("Int64", "Uint128", "JSONFloat64", "CustO", "u32", "Uint64")}
			s.newE(0, m, 0)
			s.encode(g, 0, sc.T, sc.value())
			s.encode(g, 0, probe, g.value(probe, 4))
			data := append([]byte{}, s.enc[0].w.got...)
			s.newD(0, m, data, 1)
			if s.decode(0, sc.T, none) == "panic" {
				return
			}
			s.decode(0, probe, none)
			if g.one(3) {
				s.reset(0, data)
			} else {
				s.reset(0, g.mutate(data))
			}
			s.decode(0, sc.T, none)
			s.decode(0, probe, none)
		})
	}
	x.random(x.size(500, 20000), func(s *Sess, g *G) {
		ts := types(g)
		for id := 0; id < 2; id++ {
			s.newE(id, g.mode(), g.r.Intn(2))
		}
		fresh := func(m string) []byte {
			var out []byte
			for k := 1 + g.r.Intn(3); k > 0; k-- {
				t := ts[g.r.Intn(len(ts))]
				b, _ := encode(g.r.Intn(12), m, g.value(t, 6))
				out = append(out, b...)
			}
			if g.one(3) {
				out = g.mutate(out)
			}
			return out
		}
		for id := 0; id < 2; id++ {
			m := g.mode()
			s.newD(id, m, fresh(m), g.r.Intn(2))
		}
		for k := 6 + g.r.Intn(10); k > 0; k-- {
			id := g.r.Intn(2)
			t := ts[g.r.Intn(len(ts))]
			r := "ok"
			switch g.r.Intn(10) {
			case 0, 1, 2:
				prior := none
				if g.one(3) {
					prior = g.prior(t)
				}
				r = s.decode(id, t, prior)
			case 3:
				o := s.dec[id]
				if rem := o.d.Remaining(); rem >= 0 && rem <= len(o.data) {
					r = s.rd(id, g.readArg(readOps[g.r.Intn(len(readOps))], rem, len(o.data)))
				}
			case 4:
				switch old := s.dec[id].data; g.r.Intn(6) {
				case 4:
					s.reset(id, nil)
				case 5:
					s.reset(id, []byte{})
				case 0: // the same buffer again
					s.reset(id, old)
				case 1: // a part of it
					s.reset(id, old[g.r.Intn(len(old)+1):])
				case 2: // an equal one
					s.reset(id, append([]byte{}, old...))
				default:
					s.reset(id, fresh(s.dec[id].m))
				}
			case 5:
				s.setenc(id, g.mode())
			case 6:
				s.wr(id, g.writeArg(writeOps[g.r.Intn(len(writeOps))]))
			case 7: // failing encode
				bad := &Sch{K: "struct", F: []Fld{{N: "A", T: &Sch{K: "u16"}, Big: true}, {N: "B", T: &Sch{K: "CustA"}, Big: true}}}
				v := reflect.New(typeOf(bad)).Elem()
				v.Field(1).Field(0).SetUint(0xDEAD)
				s.encode(g, id, bad, v)
			default:
				s.encode(g, id, t, g.value(t, 6))
			}
			if r == "panic" {
				return
			}
		}
	})
}

func p28(x *X) {
	calls := func(s *Sess, g *G, m string, t *Sch, v reflect.Value) {
		val := valOf(t, v)
		e0 := atomic.LoadInt64(&encCalls)
		out, er := encode(g.r.Intn(12), m, v)
		ec := atomic.LoadInt64(&encCalls) - e0
		d0 := atomic.LoadInt64(&decCalls)
		dr := "none"
		if er == "ok" {
			_, dr = decodeAt(g.r.Intn(4), m, out, 0, reflect.New(v.Type()))
		}
		dc := atomic.LoadInt64(&decCalls) - d0
		s.add("calls", obj{"m": m, "t": t, "v": val}, obj{"er": er, "dr": dr, "ec": clamp(ec), "dc": clamp(dc)})
	}
	for _, sc := range x.pick(500, 0) {
		x.session(func(s *Sess, g *G) {
			for _, m := range modes {
				v := sc.value()
				calls(s, g, m, sc.T, v)
				s.both(g, m, sc.T, v, 1)
			}
		})
	}
	x.random(x.size(400, 15000), func(s *Sess, g *G) {
		g.noLib = g.one(2)
		t := g.custSch(3)
		m := g.mode()
		v := g.value(t, 12)
		calls(s, g, m, t, v)
		s.both(g, m, t, v, 1)
	})
	tc := schemaOf(catalogue["Customs"])
	x.random(x.size(30, 800), func(s *Sess, g *G) {
		m := g.mode()
		v := g.value(tc, 10)
		calls(s, g, m, tc, v)
		s.both(g, m, tc, v, 2)
		// a refusing one somewhere
		switch g.r.Intn(4) {
		case 0:
			v.Field(0).Field(0).SetUint(0xDEAD)
		case 1:
			v.Field(1).Elem().Field(0).SetUint(0xDEAD)
		case 2:
			v.Field(7).Index(1).Field(0).SetUint(0xDEAD)
		default:
			v.Field(0).Field(0).SetUint(0xBEEF) // refused on decode
		}
		s.both(g, m, tc, v, 0)
	})
	// codecs held by interface fields: decoding goes into the held value
	x.random(x.size(150, 4000), func(s *Sess, g *G) {
		ifc := func() *Sch {
			t := &Sch{K: "ifc", E: &Sch{K: g.pick("CustA", "CustP", "CustN", "CustO", "CustK")}, G: g.pick("", "codec")}
			if g.one(5) {
				t = &Sch{K: "arr", N: 1 + g.r.Intn(3), E: t}
			}
			return t
		}
		t := &Sch{K: "struct"}
		for i := 0; i < 1+g.r.Intn(3); i++ {
			t.F = append(t.F, Fld{N: fmt.Sprintf("I%d", i), T: ifc(), Big: g.one(2), Opt: g.one(4), Copt: g.one(5)})
			if g.one(2) {
				t.F = append(t.F, Fld{N: fmt.Sprintf("G%d", i), T: g.leaf()})
			}
		}
		if g.one(4) {
			t = &Sch{K: "struct", F: []Fld{{N: "A", T: &Sch{K: "u8"}}, {N: "B", T: t}, {N: "C", T: &Sch{K: "ptr", E: ifc()}}}}
		}
		g.evil = g.one(4)
		m := g.mode()
		v := g.value(t, 8)
		data := s.enc1(g, m, t, v)
		g.evil = false
		for k := 0; k < 3; k++ { // destinations that hold the same, other and no values
			prior := g.value(t, 8)
			if k == 0 {
				prior = v
			}
			if k == 2 && data != nil {
				data = g.mutate(data)
			}
			s.dec1(g, m, t, data, 0, prior)
		}
	})
	// refusals anywhere
	x.random(x.size(300, 8000), func(s *Sess, g *G) {
		g.noLib = true
		t := g.custSch(3)
		g.evil = true
		s.both(g, g.mode(), t, g.value(t, 8), 0)
	})
	// every refusal in every position
	a := &Sch{K: "CustA"}
	one := func(f ...Fld) *Sch { return &Sch{K: "struct", F: f} }
	pos := []*Sch{
		a, {K: "ptr", E: a}, {K: "ptr", E: &Sch{K: "ptr", E: a}}, {K: "slice", E: a}, {K: "arr", N: 3, E: a}, {K: "map", Key: &Sch{K: "u8"}, E: a},
		{K: "map", Key: &Sch{K: "str"}, E: &Sch{K: "slice", E: a}}, {K: "slice", E: &Sch{K: "ptr", E: a}}, {K: "ptr", E: &Sch{K: "slice", E: a}},
		{K: "slice", E: &Sch{K: "slice", E: a}},
		one(Fld{N: "A", T: a}, Fld{N: "B", T: &Sch{K: "u16"}}), one(Fld{N: "A", T: &Sch{K: "u8"}}, Fld{N: "B", T: a}),
		one(Fld{N: "A", T: a, Opt: true}, Fld{N: "B", T: &Sch{K: "u16"}}), one(Fld{N: "A", T: &Sch{K: "ptr", E: a}, Opt: true}),
		one(Fld{N: "A", T: a, Copt: true}, Fld{N: "B", T: &Sch{K: "u16"}}), one(Fld{N: "A", T: &Sch{K: "ptr", E: a}, Copt: true}),
		one(Fld{N: "A", T: &Sch{K: "u8"}}, Fld{N: "B", T: a, Ext: true}, Fld{N: "C", T: a, Ext: true}),
		one(Fld{N: "A", T: &Sch{K: "u8"}, So: "B"}, Fld{N: "B", T: &Sch{K: "slice", E: a}}, Fld{N: "C", T: &Sch{K: "u8"}}),
		one(Fld{N: "A", T: one(Fld{N: "P", T: a, Big: true})}, Fld{N: "B", T: &Sch{K: "u8"}}),
		{K: "slice", E: one(Fld{N: "A", T: &Sch{K: "u16"}}, Fld{N: "B", T: a})},
		{K: "struct", Enum: true, F: []Fld{{N: "Enum", T: &Sch{K: "u8", G: "BorshEnum"}}, {N: "V0", T: a}, {N: "V1", T: &Sch{K: "ptr", E: a}}}},
	}
	// the same positions for a type with methods on its pointer only
	var swap func(t *Sch, inPtr bool) *Sch
	swap = func(t *Sch, inPtr bool) *Sch {
		if t == nil {
			return nil
		}
		c := *t
		if t.K == "CustA" {
			c.K = "CustP"
			if inPtr {
				return &c
			}
			return &Sch{K: "ptr", E: &c}
		}
		c.E = swap(t.E, t.K == "ptr")
		c.F = nil
		for _, f := range t.F {
			f.T = swap(f.T, false)
			c.F = append(c.F, f)
		}
		return &c
	}
	for _, t := range pos[:len(pos):len(pos)] {
		pos = append(pos, swap(t, false))
	}
	for _, t := range pos {
		for _, m := range modes {
			x.session(func(s *Sess, g *G) {
				for r := range refusals {
					for _, c := range []uint64{0xDEAD, 0xBEEF} {
						g.refusal, g.refX = r, c
						for k := 0; k < 3; k++ {
							s.both(g, m, t, g.value(t, 8), 0)
						}
					}
				}
			})
		}
	}
}

// custSch: types with custom leaves in every position
func (g *G) custSch(depth int) *Sch {
	leaf := func() *Sch {
		if g.one(6) {
			return &Sch{K: "ptr", E: &Sch{K: "CustP"}}
		}
		return &Sch{K: g.pick(custKs...)}
	}
	if depth == 0 {
		return leaf()
	}
	switch g.r.Intn(7) {
	case 0:
		return leaf()
	case 1:
		return &Sch{K: "slice", E: g.custSch(depth - 1)}
	case 2:
		return &Sch{K: "arr", N: 1 + g.r.Intn(3), E: g.custSch(depth - 1)}
	case 3:
		return &Sch{K: "map", Key: &Sch{K: g.pick("u8", "str", "CustK", "CustK", "CsU8", "CsU32", "CsU64", "CsI8", "CsI16", "CsI32", "CsI64", "CsSt")}, E: g.custSch(depth - 1)}
	case 4:
		return &Sch{K: "ptr", E: g.custSch(depth - 1)}
	case 5:
		return &Sch{K: "struct", Enum: true, F: []Fld{{N: "Enum", T: &Sch{K: "u8", G: "BorshEnum"}}, {N: "V0", T: g.custSch(depth - 1)}, {N: "V1", T: leaf()}}}
	}
	t := &Sch{K: "struct", F: []Fld{}}
	for i := 0; i < 1+g.r.Intn(3); i++ {
		f := Fld{N: fmt.Sprintf("F%d", i), T: g.custSch(depth - 1), Big: g.one(2), Opt: g.one(4), Copt: g.one(6)}
		t.F = append(t.F, f)
		if g.one(2) {
			t.F = append(t.F, Fld{N: fmt.Sprintf("G%d", i), T: &Sch{K: g.pick("u16", "u8", "Int64")}})
		}
	}
	return t
}

func p29(x *X) {
	// every short byte string over bytes of each UTF-8 role
	roles := []byte{'a', 0x7f, 0x80, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xa0, 0xed, 0x9f, 0xef, 0xf0, 0x90, 0xf4, 0x8f, 0xf5, 0xff, 0}
	var strs [][]byte
	for _, a := range roles {
		strs = append(strs, []byte{a})
		for _, b := range roles {
			strs = append(strs, []byte{a, b})
		}
	}
	one := func(s *Sess, g *G, m string, str []byte) {
		t := &Sch{K: g.pick("SafeString", "SafeString", "str")}
		var data []byte
		if t.K == "str" && m == "bin" {
			data = le(uint64(len(str)), 8)
		} else {
			data = countPrefix(m, uint64(len(str)))
		}
		data = append(data, str...)
		if g.one(2) {
			data = append(data, g.raw()...)
		}
		if g.one(10) {
			data = data[:g.r.Intn(len(data)+1)]
		}
		s.dec1(g, m, t, data, 0, none)
	}
	for i := 0; i < len(strs); i += 8 {
		x.session(func(s *Sess, g *G) {
			for j := i; j < i+8 && j < len(strs); j++ {
				one(s, g, g.mode(), strs[j])
			}
		})
	}
	x.random(x.size(500, 20000), func(s *Sess, g *G) {
		var str []byte
		for k := g.r.Intn(8); k > 0; k-- {
			switch g.r.Intn(4) {
			case 0:
				str = append(str, g.text()...)
			case 1:
				str = append(str, roles[g.r.Intn(len(roles))], roles[g.r.Intn(len(roles))], roles[g.r.Intn(len(roles))])
			case 2: // cut a character
				c := []byte(string(g.rune()))
				str = append(str, c[:g.r.Intn(len(c)+1)]...)
			default:
				str = append(str, roles[g.r.Intn(len(roles))])
			}
		}
		one(s, g, g.mode(), str)
		// the primitive readers, one after another over the same bytes
		m := g.mode()
		data := append(countPrefix(m, uint64(len(str))), str...)
		data = append(data, countPrefix(m, uint64(len(str)))...)
		data = append(data, str...)
		data = append(data, 5, 6)
		s.newD(0, m, data, 0)
		s.rd(0, A{F: g.pick("safe", "string")})
		s.rd(0, A{F: g.pick("safe", "string", "byteslice")})
	})
	// long strings
	for _, n := range []int{511, 1023, 1024, 2047, 2048, 4093, 4094, 4095, 4096, 8191, 16383, 32767} {
		for k := 0; k < 3; k++ {
			x.session(func(s *Sess, g *G) {
				str := bytes.Repeat([]byte{'x'}, n-k)
				for len(str) < n+40 {
					str = append(str, []byte(string([]rune("é界\U0001f600ж")[g.r.Intn(4)]))...)
					if g.one(5) {
						str = append(str, roles[g.r.Intn(len(roles))])
					}
				}
				m := g.mode()
				s.dec1(g, m, &Sch{K: "SafeString"}, append(countPrefix(m, uint64(len(str))), str...), 0, none)
			})
		}
	}
	x.random(x.size(200, 6000), func(s *Sess, g *G) {
		t := &Sch{K: g.pick("SafeString", "str")}
		if g.one(2) {
			t = &Sch{K: "slice", E: t}
		} else if g.one(2) {
			t = &Sch{K: "struct", F: []Fld{{N: "A", T: t}, {N: "B", T: &Sch{K: "u8"}}, {N: "C", T: &Sch{K: "SafeString"}, Opt: true}}}
		}
		m := g.mode()
		v := g.value(t, 5)
		s.both(g, m, t, v, 3)
		s.rt1(g, m, t, v)
	})
}

func p30(x *X) {
	for _, sc := range x.scen {
		x.session(func(s *Sess, g *G) {
			for _, m := range modes {
				v := sc.value()
				out := s.enc1(g, m, sc.T, v)
				if out != nil {
					s.dec1(g, m, sc.T, out, 0, none)
				}
				for k := 0; k < 2; k++ {
					s.dec1(g, m, sc.T, append([]byte{1, 0, 0, 0}, g.fuzzBytes()...), 0, none)
					s.dec1(g, m, sc.T, append([]byte{byte(g.r.Intn(3)), byte(g.r.Intn(2))}, g.fuzzBytes()...), 0, none)
				}
			}
		})
	}
	// an unsupported kind somewhere in a larger type
	x.random(x.size(300, 8000), func(s *Sess, g *G) {
		t := g.plantUnsup(g.sch(3))
		m := g.mode()
		g.bare = m == "borsh" && g.one(2)
		g.noMap = false
		v := g.value(t, 8)
		out := s.enc1(g, m, t, v)
		if out != nil {
			s.dec1(g, m, t, out, 0, none)
		}
		s.dec1(g, m, t, g.fuzzBytes(), 0, none)
	})
	// no value behind a pointer does not make a kind supported
	for _, u := range unsupNames {
		x.session(func(s *Sess, g *G) {
			p := &Sch{K: "ptr", E: &Sch{K: "unsup", G: u}}
			for _, t := range []*Sch{{K: "struct", F: []Fld{{N: "A", T: &Sch{K: "u8"}}, {N: "B", T: p}, {N: "C", T: &Sch{K: "u16"}}}},
				{K: "arr", N: 2, E: p}, {K: "slice", E: p}, {K: "ptr", E: p}, {K: "map", Key: &Sch{K: "u8"}, E: p}} {
				for k := 0; k < 2; k++ {
					g.bare = k == 0
					s.enc1(g, "borsh", t, g.value(t, 6))
				}
				g.bare = false
				v := reflect.New(typeOf(t)).Elem()
				if t.K == "slice" {
					v.Set(reflect.MakeSlice(v.Type(), 1, 1))
				}
				s.enc1(g, "borsh", t, v)
				for _, m := range modes {
					s.dec1(g, m, t, append([]byte{1, 0, 0, 0}, g.fuzzBytes()...), 0, none)
				}
			}
		})
	}
	// formats that do not exist
	x.session(func(s *Sess, g *G) {
		for _, n := range []int{0, 1, 2, 3, 4, 5, 7, 8, 255, 256, 257, 258, 65536, 1 << 20, 1<<31 - 1, -1, -2, -256, -1 << 31} {
			var e *bin.Encoder
			var d *bin.Decoder
			ei, di := "", ""
			er := try(func() error { e = bin.NewEncoderWithEncoding(&plain{}, bin.Encoding(n)); return nil })
			dr := try(func() error { d = bin.NewDecoderWithEncoding([]byte{1, 2}, bin.Encoding(n)); return nil })
			if e != nil {
				ei = is(e)
			}
			if d != nil {
				di = is(d)
			}
			s.add("mkcodec", obj{"n": n}, obj{"e": er == "ok", "d": dr == "ok", "ei": ei, "di": di, "ii": is(bin.Encoding(n))})
		}
	})
	// invalid destinations
	bad := []interface{}{nil, 5, "x", Inner{}, []byte{1}, map[string]int{}, (*Inner)(nil), (*int)(nil), (*uint32)(nil), (**uint32)(nil), (*string)(nil), (*[]byte)(nil),
		(*CustA)(nil), (*bin.Uint128)(nil), (*map[string]int)(nil), (*EnumA)(nil), [3]uint8{}, true, 3.5, CustA{}, bin.Uint64(3), (*interface{})(nil), func() {}, make(chan int),
		(*[4]uint16)(nil), (*bin.SafeString)(nil), (*bin.Varint16)(nil), struct{}{}, (*struct{})(nil), (*CustP)(nil), CustK(2),
		(*bin.Bool)(nil), (*bin.HexBytes)(nil), (*bin.JSONFloat64)(nil), (*bin.Varuint16)(nil), (*bin.Varint32)(nil), (*bin.Varuint32)(nil), (*bin.Int64)(nil), (*bin.Uint64)(nil),
		(*bin.Int128)(nil), (*bin.Float128)(nil), (*bin.EmptyVariant)(nil), (*CustK)(nil), (*CustN)(nil), (*CustO)(nil), (*CustM)(nil), (**CustA)(nil), bin.Bool(true), bin.HexBytes{1},
		bin.SafeString("x"), bin.EmptyVariant{}, (*uint8)(nil), (*uint16)(nil), (*uint64)(nil), (*int8)(nil), (*int64)(nil), (*bool)(nil), (*float64)(nil), (*[]string)(nil), (*[]uint64)(nil),
		(*bin.TypeID)(nil), [2]string{}, []Inner{{}}, map[string]uint8{"a": 1}, (*unsafe.Pointer)(nil), uintptr(3), (*error)(nil)}
	for i := range bad {
		for _, m := range modes {
			x.session(func(s *Sess, g *G) {
				data := append([]byte{1, 2, 3}, g.fuzzBytes()...)
				d := newDec(m, data, g.r.Intn(2))
				p := g.r.Intn(len(data))
				d.SkipBytes(uint(p))
				var err error
				r := try(func() error { err = d.Decode(bad[i]); return err })
				var ide *bin.InvalidDecoderError
				s.add("decbad", obj{"m": m, "k": fmt.Sprintf("%T", bad[i]), "p": p}, obj{"r": r, "inv": errors.As(err, &ide), "pos": clamp(int64(d.Position()))})
				r = try(func() error { err = unmarshal(m, bad[i], data); return err })
				s.add("decbad", obj{"m": m, "k": fmt.Sprintf("%T", bad[i]), "p": 0}, obj{"r": r, "inv": errors.As(err, &ide), "pos": 0})
			})
		}
	}
}

// plantUnsup replaces one leaf by an unsupported kind
func (g *G) plantUnsup(t *Sch) *Sch {
	u := func() *Sch { return &Sch{K: "unsup", G: unsupNames[g.r.Intn(len(unsupNames))]} }
	c := *t
	c.G = "" // no longer that type
	switch t.K {
	case "ptr", "arr":
		c.E = g.plantUnsup(t.E)
		return &c
	case "slice", "map":
		// elements with some width, so that counts are comparable to the data
		c.E = &Sch{K: "struct", F: []Fld{{N: "A", T: &Sch{K: "u8"}}, {N: "B", T: g.plantUnsup(t.E)}}}
		return &c
	case "struct":
		if len(t.F) == 0 {
			return u()
		}
		c.F = append([]Fld{}, t.F...)
		i := g.r.Intn(len(c.F))
		if c.Enum && i == 0 || c.F[i].Unexp || c.F[i].So != "" || t.linked(c.F[i].N) != "" {
			return u()
		}
		c.F[i].T = g.plantUnsup(c.F[i].T)
		return &c
	}
	return u()
}

func p31(x *X) {
	encPure := func(s *Sess, g *G, m string, t *Sch, v reflect.Value) {
		if m != "borsh" && bigMap(t, v) {
			return
		}
		before, _ := json.Marshal(valOf(t, v))
		h := g.r.Intn(12)
		x1, r1 := encode(h, m, v)
		mid, _ := json.Marshal(valOf(t, v))
		x2, r2 := encode(g.r.Intn(12), m, v)
		after, _ := json.Marshal(valOf(t, v))
		same := string(before) == string(mid)
		if !same {
			after = mid
		}
		s.add("pure", obj{"k": "enc", "m": m, "t": t.String()}, obj{"before": string(before), "after": string(after), "r1": r1, "r2": r2, "x1": hexs(x1), "x2": hexs(x2)})
	}
	decPure := func(s *Sess, g *G, m string, t *Sch, data []byte) {
		if floatKeys(t) {
			return
		}
		buf := append(make([]byte, 0, len(data)+32), data...)
		full := buf[:cap(buf)]
		for i := len(data); i < len(full); i++ {
			full[i] = 0x5a
		}
		before := hexs(full)
		a := reflect.New(typeOf(t))
		_, r1 := decodeAt(0, m, buf, 0, a)
		x1 := ""
		if r1 == "ok" {
			b, _ := json.Marshal(normal(t, valOf(t, a.Elem())))
			x1 = string(b)
		}
		// the destination may alias the buffer; decode something else into it
		if r1 == "ok" {
			out, r := encode(0, m, g.value(t, 8))
			if r == "ok" {
				decodeAt(0, m, out, 0, a)
			}
		}
		b := reflect.New(typeOf(t))
		_, r2 := decodeAt(1, m, buf, 0, b)
		x2 := ""
		if r2 == "ok" {
			j, _ := json.Marshal(normal(t, valOf(t, b.Elem())))
			x2 = string(j)
		}
		s.add("pure", obj{"k": "dec", "m": m, "t": t.String(), "data": hexs(data)}, obj{"before": before, "after": hexs(full), "r1": r1, "r2": r2, "x1": x1, "x2": x2})
	}
	for _, sc := range x.pick(900, 0) {
		x.session(func(s *Sess, g *G) {
			for _, m := range modes {
				v := sc.value()
				encPure(s, g, m, sc.T, v)
				out, r := encode(0, m, v)
				if r == "ok" {
					decPure(s, g, m, sc.T, out)
					decPure(s, g, m, sc.T, g.mutate(out))
				}
			}
		})
	}
	x.random(x.size(500, 20000), func(s *Sess, g *G) {
		t := g.anySch()
		m := g.mode()
		g.bare = g.one(2)
		v := g.value(t, 15)
		g.bare = false
		encPure(s, g, m, t, v)
		out, _ := encode(0, m, v)
		decPure(s, g, m, t, out)
		decPure(s, g, m, t, g.mutate(out))
		decPure(s, g, m, t, g.fuzzBytes())
	})
	// primitive reads and writes
	x.random(x.size(400, 10000), func(s *Sess, g *G) {
		data := append(g.hostile(), g.raw()...)
		before := hexs(data)
		m := g.mode()
		d := newDec(m, data, 0)
		log := [2]string{}
		var seq []A
		for round := 0; round < 2; round++ {
			d.Reset(data)
			for k := 0; k < 10; k++ {
				if round == 0 {
					rem := d.Remaining()
					if rem < 0 {
						rem = 0
					}
					a := g.readArg(readOps[g.r.Intn(len(readOps))], rem, d.Len())
					seq = append(seq, a)
				}
				var v interface{}
				r := try(func() (err error) { v, err = doRead(d, seq[k]); return })
				j, _ := json.Marshal(v)
				log[round] += r + string(j) + ";"
			}
		}
		s.add("pure", obj{"k": "rd", "m": m}, obj{"before": before, "after": hexs(data), "r1": "ok", "r2": "ok", "x1": log[0], "x2": log[1]})
		a := g.writeArg(g.pick("write", "bytes"))
		b0 := hexs(a.V)
		w1, w2 := &plain{}, &plain{}
		r1 := try(func() error { return doWrite(newEnc(m, w1, 0), a) })
		r2 := try(func() error { return doWrite(newEnc(m, w2, 1), a) })
		s.add("pure", obj{"k": "wr", "m": m}, obj{"before": b0, "after": hexs(a.V), "r1": r1, "r2": r2, "x1": hexs(w1.got), "x2": hexs(w2.got)})
		id := bin.TypeIDFromBytes(a.V[:min(8, len(a.V))])
		bb := id.Bytes()
		if len(bb) > 0 {
			bb[0] ^= 1
		}
		u := bin.Uint128{Lo: 1, Hi: 2}
		u.Bytes()[0] = 9
		s.add("pure", obj{"k": "id"}, obj{"before": b0, "after": hexs(a.V), "r1": "ok", "r2": "ok", "x1": u.String(), "x2": (bin.Uint128{Lo: 1, Hi: 2}).String()})
	})
}

// normal: nil and empty are the same
func normal(t *Sch, v interface{}) interface{} {
	switch y := v.(type) {
	case obj:
		o := obj{}
		for k, e := range y {
			if k != "nil" {
				o[k] = normal(t, e)
			}
		}
		return o
	case list:
		o := list{}
		for _, e := range y {
			o = append(o, normal(t, e))
		}
		return o
	}
	return v
}
