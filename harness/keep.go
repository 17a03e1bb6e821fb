package main

import (
	"encoding/json"
	"reflect"

	bin "github.com/gagliardetto/binary"
)

// Results belong to the caller: later calls do not change them, and what the
// caller does with them does not change what later calls return.

// own calls f, overwrites what it returned and calls it again
func own(f func() []byte) bs {
	a := f()
	first := cp(a)
	for i := range a {
		a[i] ^= 0xa5
	}
	second := cp(f())
	if string(first) != string(second) {
		return append(first, second...)
	}
	return first
}

// scribble changes everything reachable from v in place
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i))
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
		}
		if v.Kind() == reflect.Slice && v.CanInterface() && v.Len() < v.Cap() {
			reflect.Append(v, reflect.Zero(v.Type().Elem()))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if v.CanInterface() {
				scribble(v.MapIndex(k))
				v.SetMapIndex(k, reflect.Value{})
			}
		}
	}
	if !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(^v.Uint())
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(^v.Int())
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Float32, reflect.Float64:
		v.SetFloat(v.Float() + 1)
	}
}

// hasBytes: byte slices may be views of the input
func hasBytes(t *Sch) bool {
	switch t.K {
	case "HexBytes", "CustN", "CustL", "CustM", "CustD", "CustO", "CustA", "CustR":
		return true
	case "slice":
		return t.E.ukind() == 1 || hasBytes(t.E)
	case "arr", "ptr", "ifc":
		return hasBytes(t.E)
	case "map":
		return hasBytes(t.Key) || hasBytes(t.E)
	case "struct":
		for _, f := range t.F {
			if hasBytes(f.T) {
				return true
			}
		}
	}
	return false
}

func asJSON(v interface{}) string { b, _ := json.Marshal(v); return string(b) }

// result: how it reads now, and a way to spoil it
type result struct {
	k     string
	now   func() string
	spoil func()
}

// maker returns a call that can be repeated
func (g *G) maker() func() result {
	bytesRes := func(k string, f func() []byte) func() result {
		return func() result {
			var b []byte
			r := try(func() error { b = f(); return nil })
			return result{k, func() string { return r + hexs(b) }, func() {
				for i := range b {
					b[i] ^= 0xa5
				}
				_ = append(b, 1, 2, 3, 4, 5, 6, 7, 8)
			}}
		}
	}
	m := g.mode()
	switch g.r.Intn(12) {
	case 0, 1, 2, 3, 4:
		t := g.anySch()
		if floatKeys(t) {
			t = g.twin()
		}
		v := g.value(t, 12)
		if m != "borsh" && bigMap(t, v) {
			m = "borsh"
		}
		if g.one(2) {
			return bytesRes("marshal", func() []byte { b, _ := marshal(m, v.Interface()); return b })
		}
		data, _ := encode(0, m, v)
		if g.one(4) {
			data = g.mutate(data)
		}
		how := g.r.Intn(4)
		reuse := g.one(2) && !hasBytes(t)
		return func() result {
			dst := reflect.New(typeOf(t))
			var r string
			mine := append([]byte{}, data...)
			if how == 3 {
				r = try(func() error { return unmarshal(m, dst.Interface(), mine) })
			} else {
				_, r = decodeAt(how, m, mine, 0, dst)
			}
			read := 0
			return result{"decode", func() string {
				if read++; read == 2 && reuse { // the input buffer is used for something else
					for i := range mine {
						mine[i] ^= 0xa5
					}
				}
				return r + asJSON(orEmpty(r, func() interface{} { return normal(t, valOf(t, dst.Elem())) }))
			}, func() { scribble(dst.Elem()) }}
		}
	case 5:
		f := []func(string) []byte{bin.SighashInstruction, bin.SighashAccount, func(n string) []byte { return bin.Sighash("global", n) }}[g.r.Intn(3)]
		n := realNames[g.r.Intn(len(realNames))]
		return bytesRes("sighash", func() []byte { return f(n) })
	case 6:
		u := bin.Uint128{Lo: unle(g.rawInt(8)), Hi: unle(g.rawInt(8))}
		if g.one(2) {
			u.Endianness = order(true)
		}
		switch g.r.Intn(4) {
		case 0:
			return bytesRes("u128", u.Bytes)
		case 1:
			return bytesRes("u128json", func() []byte { b, _ := u.MarshalJSON(); return b })
		case 2:
			return func() result {
				b := bin.Int128(u).BigInt()
				return result{"int128big", b.String, func() { b.SetInt64(-77) }}
			}
		}
		return func() result {
			b := u.BigInt()
			return result{"u128big", b.String, func() { b.SetInt64(77) }}
		}
	case 7:
		n := unle(g.rawInt(8))
		if g.one(2) {
			n %= 1000
		}
		switch g.r.Intn(3) {
		case 0:
			return bytesRes("i64json", func() []byte { b, _ := bin.Int64(n).MarshalJSON(); return b })
		case 1:
			return bytesRes("u64json", func() []byte { b, _ := bin.Uint64(n).MarshalJSON(); return b })
		}
		h := bin.HexBytes(g.fuzzBytes())
		return bytesRes("hexjson", func() []byte { b, _ := h.MarshalJSON(); return b })
	case 8:
		text, _ := bin.HexBytes(g.fuzzBytes()).MarshalJSON()
		return func() result {
			var h bin.HexBytes
			r := try(func() error { return h.UnmarshalJSON(append([]byte{}, text...)) })
			return result{"hexin", func() string { return r + hexs(h) }, func() {
				for i := range h {
					h[i] ^= 0xa5
				}
			}}
		}
	case 9:
		id := bin.TypeIDFromUint32(uint32(unle(g.rawInt(4))), order(g.one(2)))
		return bytesRes("typeid", func() []byte { return id.Bytes() })
	case 10:
		ws := g.fuzzBytes()
		return bytesRes("record", func() []byte {
			rec := bin.NewWriteByWrite("")
			for i := range ws {
				rec.Write(ws[i : i+1])
			}
			return rec.Bytes()
		})
	}
	n := []int{0, 1, 127, 128, 300, 16384, 65535, 65536, -1}[g.r.Intn(9)]
	return bytesRes("cu16", func() []byte {
		var b []byte
		bin.EncodeCompactU16Length(&b, n)
		return b
	})
}

func (s *Sess) keep(g *G) {
	type kept struct {
		k         string
		now, last string
	}
	var rs []result
	var ks []kept
	add := func(r result) {
		rs = append(rs, r)
		ks = append(ks, kept{k: r.k, now: r.now()})
	}
	again := []func() result{}
	want := []string{}
	// decodes of one small type with pointers, again and again
	pe := func() *Sch {
		return &Sch{K: "ptr", E: &Sch{K: g.pick(append(append([]string{"f32", "f64", "bool", "bool", "u8", "CustP"}, scalarKs...), libKs...)...)}}
	}
	pt := &Sch{K: "struct", F: []Fld{{N: "A", T: pe()}, {N: "B", T: pe(), Opt: g.one(2)}, {N: "C", T: &Sch{K: "slice", E: pe()}}}}
	for k := g.r.Intn(6); k > 1; k-- {
		m, how := g.mode(), g.r.Intn(3)
		data, _ := encode(0, m, g.value(pt, 5))
		dst := reflect.New(typeOf(pt))
		_, r := decodeAt(how, m, data, 0, dst)
		add(result{"decode", func() string {
			return r + asJSON(orEmpty(r, func() interface{} { return normal(pt, valOf(pt, dst.Elem())) }))
		}, func() {}})
	}
	for k := 3 + g.r.Intn(8); k > 0; k-- {
		mk := g.maker()
		add(mk())
		if g.one(2) { // the same call after its result has been spoilt
			r := mk()
			r.spoil()
			again = append(again, mk)
			want = append(want, ks[len(ks)-1].now)
		}
	}
	for i := range rs {
		ks[i].last = rs[i].now()
	}
	for i, mk := range again {
		r := mk()
		ks = append(ks, kept{"again " + r.k, want[i], r.now()})
	}
	out := list{}
	for _, k := range ks {
		if k.now != k.last || g.one(4) {
			out = append(out, obj{"now": k.k + " " + k.now, "last": k.k + " " + k.last})
		}
	}
	s.add("keep", obj{"n": len(ks)}, out)
}
