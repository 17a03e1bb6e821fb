package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"reflect"

	bin "github.com/gagliardetto/binary"
)

var lastWhy string

// try calls into the library: "ok", "err" or "panic".
func try(f func() error) (r string) {
	defer func() {
		if p := recover(); p != nil {
			lastWhy = fmt.Sprint(p)
			r = "panic"
		}
	}()
	if err := f(); err != nil {
		lastWhy = "error"
		return "err"
	}
	return "ok"
}

func clamp(n int64) int {
	if n > math.MaxInt32 {
		return math.MaxInt32
	}
	if n < math.MinInt32 {
		return math.MinInt32
	}
	return int(n)
}

// plain collects what is written, one Write at a time.
type plain struct{ got []byte }

func (p *plain) Write(b []byte) (int, error) { p.got = append(p.got, b...); return len(b), nil }

func newEnc(m string, w interface {
	Write([]byte) (int, error)
}, how int) *bin.Encoder {
	if how%2 == 0 {
		return bin.NewEncoderWithEncoding(w, encodings[m])
	}
	switch m {
	case "bin":
		return bin.NewBinEncoder(w)
	case "c16":
		return bin.NewCompactU16Encoder(w)
	}
	return bin.NewBorshEncoder(w)
}

func newDec(m string, data []byte, how int) *bin.Decoder {
	if how%2 == 0 {
		return bin.NewDecoderWithEncoding(data, encodings[m])
	}
	switch m {
	case "bin":
		return bin.NewBinDecoder(data)
	case "c16":
		return bin.NewCompactU16Decoder(data)
	}
	return bin.NewBorshDecoder(data)
}

func marshal(m string, v interface{}) ([]byte, error) {
	switch m {
	case "bin":
		return bin.MarshalBin(v)
	case "c16":
		return bin.MarshalCompactU16(v)
	}
	return bin.MarshalBorsh(v)
}

func unmarshal(m string, v interface{}, b []byte) error {
	switch m {
	case "bin":
		return bin.UnmarshalBin(v, b)
	case "c16":
		return bin.UnmarshalCompactU16(v, b)
	}
	return bin.UnmarshalBorsh(v, b)
}

// direct calls the value's own method, where it has one
func direct(e *bin.Encoder, v interface{}) error {
	if x, ok := v.(bin.BinaryMarshaler); ok {
		return x.MarshalWithEncoder(e)
	}
	return e.Encode(v)
}

func directDec(d *bin.Decoder, v interface{}) error {
	if x, ok := v.(bin.BinaryUnmarshaler); ok {
		return x.UnmarshalWithDecoder(d)
	}
	return d.Decode(v)
}

// encode through one of the equivalent ways of doing it.
func encode(how int, m string, v reflect.Value) (out []byte, r string) {
	var arg interface{}
	if how%2 == 0 {
		arg = v.Interface()
	} else {
		arg = v.Addr().Interface()
	}
	r = try(func() (err error) {
		switch how / 2 % 4 {
		case 0:
			out, err = marshal(m, arg)
		case 3:
			p := &plain{}
			err = direct(newEnc(m, p, how), arg)
			out = p.got
		case 1:
			p := &plain{}
			err = newEnc(m, p, how/2).Encode(arg)
			out = p.got
		default:
			b := &bytes.Buffer{}
			err = newEnc(m, b, how).Encode(arg)
			out = b.Bytes()
		}
		return err
	})
	return out, r
}

func see(d *bin.Decoder, r string, v interface{}) obj {
	return obj{"r": r, "v": v, "pos": clamp(int64(d.Position())), "rem": clamp(int64(d.Remaining())), "len": clamp(int64(d.Len())), "has": d.HasRemaining(), "is": is(d)}
}

// is: the format a codec says it uses
func is(c interface {
	IsBin() bool
	IsBorsh() bool
	IsCompactU16() bool
}) string {
	out := ""
	if c.IsBin() {
		out += "bin"
	}
	if c.IsBorsh() {
		out += "borsh"
	}
	if c.IsCompactU16() {
		out += "c16"
	}
	return out
}

// decodeAt decodes data from p into dst (a pointer).
func decodeAt(how int, m string, data []byte, p int, dst reflect.Value) (d *bin.Decoder, r string) {
	r = try(func() error {
		d = newDec(m, data, how)
		if p > 0 {
			if err := d.SkipBytes(uint(p)); err != nil {
				return err
			}
		}
		if how/2%2 == 1 {
			return directDec(d, dst.Interface())
		}
		return d.Decode(dst.Interface())
	})
	return
}

func orEmpty(r string, f func() interface{}) interface{} {
	if r != "ok" {
		return list{}
	}
	return f()
}

// ---------------------------------------------------------------------
// single events

func (s *Sess) enc1(g *G, m string, t *Sch, v reflect.Value) []byte {
	val := valOf(t, v)
	out, r := encode(g.r.Intn(12), m, v)
	s.add("enc", obj{"m": m, "t": t, "v": val}, obj{"r": r, "out": bs(out)})
	if r != "ok" {
		return nil
	}
	return out
}

func (s *Sess) rt1(g *G, m string, t *Sch, v reflect.Value) {
	val := valOf(t, v)
	out, er := encode(g.r.Intn(12), m, v)
	o := obj{"er": er, "n": len(out), "dr": "none", "dv": list{}, "pos": 0}
	if er == "ok" {
		dst := reflect.New(v.Type())
		d, dr := decodeAt(g.r.Intn(4), m, out, 0, dst)
		o["dr"] = dr
		o["pos"] = clamp(int64(d.Position()))
		o["dv"] = orEmpty(dr, func() interface{} { return valOf(t, dst.Elem()) })
	}
	s.add("rt", obj{"m": m, "t": t, "v": val}, o)
}

// dec1 decodes data from p; prior is the value the destination holds before
// (invalid: fresh).
func (s *Sess) dec1(g *G, m string, t *Sch, data []byte, p int, prior reflect.Value) {
	dst := reflect.New(typeOf(t))
	pr := list{}
	if prior.IsValid() {
		dst.Elem().Set(prior)
		pr = list{valOf(t, dst.Elem())}
	}
	d, r := decodeAt(g.r.Intn(4), m, data, p, dst)
	s.add("dec", obj{"m": m, "t": t, "data": bs(data), "p": p, "pr": pr},
		see(d, r, orEmpty(r, func() interface{} { return valOf(t, dst.Elem()) })))
}

// ---------------------------------------------------------------------
// codec objects

type decObj struct {
	d    *bin.Decoder
	m    string
	data []byte
}
type encObj struct {
	e *bin.Encoder
	w *plain
	m string
}

func (s *Sess) newD(id int, m string, data []byte, how int) {
	o := &decObj{m: m, data: data}
	o.d = newDec(m, data, how)
	s.dec[id] = o
	s.add("newd", obj{"id": id, "m": m, "data": bs(data)}, see(o.d, "ok", list{}))
}

func (s *Sess) newE(id int, m string, how int) {
	w := &plain{}
	o := &encObj{m: m, w: w, e: newEnc(m, w, how)}
	s.enc[id] = o
	s.add("newe", obj{"id": id, "m": m}, obj{"w": o.e.Written(), "is": is(o.e)})
}

// A is a primitive operation with its arguments.
type A struct {
	F   string
	Big bool
	N   int64  // count (reads); negative means negative
	U   uint64 // actual unsigned argument of skip and seek
	V   []byte // value (writes), little-endian
	B   bool
	Pre bool
}

func (a A) readJSON() obj {
	n := a.N
	if n > 1<<30 {
		n = 1 << 30
	}
	if n < 0 {
		n = -1
	}
	return obj{"f": a.F, "big": a.Big, "n": n}
}

func (a A) writeJSON() obj {
	o := obj{"f": a.F, "big": a.Big, "pre": a.Pre}
	switch a.F {
	case "bool", "option", "coption":
		o["v"] = a.B
	default:
		o["v"] = bs(a.V)
	}
	return o
}

func order(big bool) binary.ByteOrder {
	if big {
		return binary.BigEndian
	}
	return binary.LittleEndian
}

func pair(lo, hi uint64) bs { return append(le(lo, 8), le(hi, 8)...) }

var readOps = []string{"u8", "byte", "i8", "bool", "option", "coption", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "f128", "f32", "f64",
	"disc", "typeid", "uv64", "v64", "uv32", "v32", "uv16", "v16", "bytes", "nbytes", "read", "peek", "peekdisc", "skip", "discard", "seek",
	"byteslice", "string", "safe", "rust", "cu16", "cu16len", "len"}

func doRead(d *bin.Decoder, a A) (v interface{}, err error) {
	od := order(a.Big)
	switch a.F {
	case "u8":
		x, e := d.ReadUint8()
		return le(uint64(x), 1), e
	case "byte":
		x, e := d.ReadByte()
		return le(uint64(x), 1), e
	case "i8":
		x, e := d.ReadInt8()
		return le(uint64(x), 1), e
	case "bool":
		return wrap(d.ReadBool())
	case "option":
		return wrap(d.ReadOption())
	case "coption":
		return wrap(d.ReadCOption())
	case "u16":
		x, e := d.ReadUint16(od)
		return le(uint64(x), 2), e
	case "i16":
		x, e := d.ReadInt16(od)
		return le(uint64(x), 2), e
	case "u32":
		x, e := d.ReadUint32(od)
		return le(uint64(x), 4), e
	case "i32":
		x, e := d.ReadInt32(od)
		return le(uint64(x), 4), e
	case "u64":
		x, e := d.ReadUint64(od)
		return le(x, 8), e
	case "i64":
		x, e := d.ReadInt64(od)
		return le(uint64(x), 8), e
	case "u128":
		x, e := d.ReadUint128(od)
		return pair(x.Lo, x.Hi), e
	case "i128":
		x, e := d.ReadInt128(od)
		return pair(x.Lo, x.Hi), e
	case "f128":
		x, e := d.ReadFloat128(od)
		return pair(x.Lo, x.Hi), e
	case "f32":
		x, e := d.ReadFloat32(od)
		return le(uint64(math.Float32bits(x)), 4), e
	case "f64":
		x, e := d.ReadFloat64(od)
		return le(math.Float64bits(x), 8), e
	case "disc":
		x, e := d.ReadDiscriminator()
		return bs(x[:]), e
	case "typeid":
		x, e := d.ReadTypeID()
		return bs(x[:]), e
	case "uv64":
		x, e := d.ReadUvarint64()
		return le(x, 8), e
	case "v64":
		x, e := d.ReadVarint64()
		return le(uint64(x), 8), e
	case "uv32":
		x, e := d.ReadUvarint32()
		return le(uint64(x), 4), e
	case "v32":
		x, e := d.ReadVarint32()
		return le(uint64(x), 4), e
	case "uv16":
		x, e := d.ReadUvarint16()
		return le(uint64(x), 2), e
	case "v16":
		x, e := d.ReadVarint16()
		return le(uint64(x), 2), e
	case "bytes":
		x, e := d.ReadBytes(int(a.N))
		return cp(x), e
	case "nbytes":
		x, e := d.ReadNBytes(int(a.N))
		return cp(x), e
	case "read":
		buf := make([]byte, a.N)
		n, e := d.Read(buf)
		if e == nil && (n < 0 || n > len(buf)) {
			return nil, errors.New("impossible count")
		}
		if e != nil {
			return list{}, e
		}
		return cp(buf[:n]), e
	case "peek":
		x, e := d.Peek(int(a.N))
		return cp(x), e
	case "peekdisc":
		x, e := d.PeekDiscriminator()
		return bs(x[:]), e
	case "skip":
		return list{}, d.SkipBytes(uint(a.U))
	case "discard":
		return list{}, d.Discard(int(a.N))
	case "seek":
		return list{}, d.SetPosition(uint(a.U))
	case "byteslice":
		x, e := d.ReadByteSlice()
		return cp(x), e
	case "string":
		x, e := d.ReadString()
		return bs(x), e
	case "safe":
		x, e := d.SafeReadUTF8String()
		return bs(x), e
	case "rust":
		x, e := d.ReadRustString()
		return bs(x), e
	case "cu16":
		x, e := d.ReadCompactU16()
		return le(uint64(x), 8), e
	case "cu16len":
		x, e := d.ReadCompactU16Length()
		return le(uint64(x), 8), e
	case "len":
		x, e := d.ReadLength()
		return le(uint64(x), 8), e
	}
	panic("doRead " + a.F)
}

func wrap(b bool, e error) (interface{}, error) { return b, e }
func cp(b []byte) bs                            { return append(bs{}, b...) }

// rd performs a primitive read on decoder id.
func (s *Sess) rd(id int, a A) string {
	o := s.dec[id]
	var v interface{} = list{}
	r := try(func() error {
		x, err := doRead(o.d, a)
		if err == nil {
			v = x
		}
		return err
	})
	s.add("rd", obj{"id": id, "a": a.readJSON()}, see(o.d, r, v))
	return r
}

func (s *Sess) decode(id int, t *Sch, prior reflect.Value) string {
	o := s.dec[id]
	dst := reflect.New(typeOf(t))
	pr := list{}
	if prior.IsValid() {
		dst.Elem().Set(prior)
		pr = list{valOf(t, dst.Elem())}
	}
	s.turn++
	r := try(func() error {
		if s.turn%3 == 0 {
			return directDec(o.d, dst.Interface())
		}
		return o.d.Decode(dst.Interface())
	})
	s.add("decode", obj{"id": id, "t": t, "pr": pr}, see(o.d, r, orEmpty(r, func() interface{} { return valOf(t, dst.Elem()) })))
	return r
}

func (s *Sess) reset(id int, data []byte) {
	o := s.dec[id]
	o.data = data
	o.d.Reset(data)
	s.add("reset", obj{"id": id, "data": bs(data)}, see(o.d, "ok", list{}))
}

func (s *Sess) setenc(id int, m string) {
	o := s.dec[id]
	o.m = m
	o.d.SetEncoding(encodings[m])
	s.add("setenc", obj{"id": id, "m": m}, see(o.d, "ok", list{}))
}

var writeOps = []string{"u8", "byte", "i8", "bool", "option", "coption", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "f32", "f64",
	"uvarint", "varint", "write", "bytes", "string", "rust", "cu16", "cu16len", "len"}
var writeWidth = map[string]int{"u8": 1, "byte": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "u128": 16, "i128": 16,
	"f32": 4, "f64": 8, "uvarint": 8, "varint": 8, "cu16": 8, "cu16len": 8, "len": 8}

func doWrite(e *bin.Encoder, a A) error {
	od := order(a.Big)
	n := unle(a.V)
	switch a.F {
	case "u8":
		return e.WriteUint8(uint8(n))
	case "byte":
		return e.WriteByte(byte(n))
	case "i8":
		return e.WriteInt8(int8(n))
	case "bool":
		return e.WriteBool(a.B)
	case "option":
		return e.WriteOption(a.B)
	case "coption":
		return e.WriteCOption(a.B)
	case "u16":
		return e.WriteUint16(uint16(n), od)
	case "i16":
		return e.WriteInt16(int16(n), od)
	case "u32":
		return e.WriteUint32(uint32(n), od)
	case "i32":
		return e.WriteInt32(int32(n), od)
	case "u64":
		return e.WriteUint64(n, od)
	case "i64":
		return e.WriteInt64(int64(n), od)
	case "u128":
		return e.WriteUint128(bin.Uint128{Lo: unle(a.V[:8]), Hi: unle(a.V[8:])}, od)
	case "i128":
		return e.WriteInt128(bin.Int128{Lo: unle(a.V[:8]), Hi: unle(a.V[8:])}, od)
	case "f32":
		return e.WriteFloat32(math.Float32frombits(uint32(n)), od)
	case "f64":
		return e.WriteFloat64(math.Float64frombits(n), od)
	case "uvarint":
		return e.WriteUVarInt(int(n))
	case "varint":
		return e.WriteVarInt(int(n))
	case "write":
		k, err := e.Write(a.V)
		if err == nil && k != len(a.V) {
			return errors.New("short count")
		}
		return err
	case "bytes":
		return e.WriteBytes(a.V, a.Pre)
	case "string":
		return e.WriteString(string(a.V))
	case "rust":
		return e.WriteRustString(string(a.V))
	case "cu16":
		return e.WriteCompactU16(int(n))
	case "cu16len":
		return e.WriteCompactU16Length(int(n))
	case "len":
		return e.WriteLength(int(n))
	}
	panic("doWrite " + a.F)
}

func (s *Sess) wr(id int, a A) string {
	o := s.enc[id]
	at := len(o.w.got)
	r := try(func() error { return doWrite(o.e, a) })
	s.add("wr", obj{"id": id, "a": a.writeJSON()}, obj{"r": r, "d": cp(o.w.got[at:]), "w": clamp(int64(o.e.Written())), "is": is(o.e)})
	return r
}

func (s *Sess) encode(g *G, id int, t *Sch, v reflect.Value) string {
	o := s.enc[id]
	at := len(o.w.got)
	val := valOf(t, v)
	arg := v.Interface()
	if g.one(2) {
		arg = v.Addr().Interface()
	}
	s.turn++
	r := try(func() error {
		if s.turn%3 == 0 {
			return direct(o.e, arg)
		}
		return o.e.Encode(arg)
	})
	s.add("encode", obj{"id": id, "t": t, "v": val}, obj{"r": r, "d": cp(o.w.got[at:]), "w": clamp(int64(o.e.Written())), "is": is(o.e)})
	return r
}

// ---------------------------------------------------------------------
// random arguments

func (g *G) readArg(f string, rem, total int) A {
	a := A{F: f, Big: g.one(2)}
	switch f {
	case "bytes", "nbytes", "peek", "discard", "skip", "seek", "read":
		lim := rem
		if f == "seek" {
			lim = total
		}
		switch g.r.Intn(9) {
		case 0:
			a.N = int64(lim)
		case 1:
			a.N = int64(lim) + 1
		case 2:
			a.N = int64(lim) - 1
		case 3:
			a.N = 0
		case 4:
			a.N = int64(lim) + int64(g.r.Intn(20))
		default:
			a.N = int64(g.r.Intn(lim + 1))
		}
		if a.N < 0 {
			a.N = 0
		}
		a.U = uint64(a.N)
		if g.one(12) && f != "read" {
			switch f {
			case "skip", "seek":
				a.U = []uint64{1 << 30, 1 << 31, 1<<31 - 1, 1 << 32, 1 << 62, 1<<63 - 1, 1 << 63, math.MaxUint64, math.MaxUint64 - uint64(g.r.Intn(40))}[g.r.Intn(9)]
				a.N = 1 << 30
			default:
				a.N = []int64{-1, -2, math.MinInt64, math.MinInt32, math.MaxInt64, math.MaxInt64 - 3, math.MaxInt32, 1 << 31, 1 << 40}[g.r.Intn(9)]
			}
		}
	}
	return a
}

func (g *G) writeArg(f string) A {
	a := A{F: f, Big: g.one(2), B: g.one(2), Pre: g.one(2)}
	switch f {
	case "write", "bytes":
		a.V = g.raw()
	case "string", "rust":
		a.V = g.text()
	case "f32":
		if g.one(5) {
			a.V = le(0x7fc00000+uint64(g.r.Intn(100)), 4)
		} else {
			a.V = le(uint64(f32s[g.r.Intn(len(f32s))]), 4)
		}
	case "f64":
		if g.one(5) {
			a.V = le(0x7ff8000000000000+uint64(g.r.Intn(100)), 8)
		} else {
			a.V = le(f64s[g.r.Intn(len(f64s))], 8)
		}
	case "cu16", "cu16len":
		a.V = le(uint64(int64(g.edge16())), 8)
	case "len":
		n := g.edge16()
		if n < 0 {
			n = 70000
		}
		a.V = le(uint64(n), 8)
	case "bool", "option", "coption":
	default:
		a.V = g.rawInt(writeWidth[f])
	}
	return a
}

func (g *G) edge16() int64 {
	switch g.r.Intn(4) {
	case 0:
		return []int64{0, 1, 127, 128, 129, 255, 256, 16383, 16384, 16385, 65534, 65535, 65536, 65537, -1, 70000, 1 << 20, -65536}[g.r.Intn(18)]
	case 1:
		return int64(g.r.Intn(65536))
	case 2:
		return int64(1) << uint(g.r.Intn(20))
	}
	return int64(g.r.Intn(300))
}

// mutate returns a damaged copy of b.
func (g *G) mutate(b []byte) []byte {
	out := append([]byte{}, b...)
	for n := 1 + g.r.Intn(3); n > 0; n-- {
		at := 0
		if len(out) > 0 {
			at = g.r.Intn(len(out))
			if g.one(3) {
				at = g.r.Intn(min(len(out), 6))
			}
		}
		switch g.r.Intn(9) {
		case 0:
			if len(out) > 0 {
				out[at] ^= 1 << uint(g.r.Intn(8))
			}
		case 1:
			if len(out) > 0 {
				out[at] = []byte{0, 1, 2, 0x7f, 0x80, 0x81, 0xfe, 0xff}[g.r.Intn(8)]
			}
		case 2:
			out = out[:at]
		case 3:
			out = append(out, g.raw()...)
		case 4:
			out = append(out[:at:at], append([]byte{byte(g.r.Intn(256))}, out[at:]...)...)
		case 5:
			if len(out) > 0 {
				out = append(out[:at:at], out[at+1:]...)
			}
		case 6:
			k := 1 + g.r.Intn(10)
			for i := at; i < len(out) && i < at+k; i++ {
				out[i] = 0xff
			}
		case 7:
			for i, c := range le(uint64(g.r.Intn(300)), 4) {
				if at+i < len(out) {
					out[at+i] = c
				}
			}
		default:
			if len(out) > 0 {
				out[at]++
			}
		}
	}
	return out
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// fuzzBytes: arbitrary input
func (g *G) fuzzBytes() []byte {
	n := g.r.Intn(40)
	b := make([]byte, n)
	switch g.r.Intn(4) {
	case 0:
		g.r.Read(b)
	case 1:
		for i := range b {
			b[i] = byte(g.r.Intn(3))
		}
	case 2:
		for i := range b {
			b[i] = []byte{0, 1, 0x7f, 0x80, 0xff, 0xfe, 2, 4}[g.r.Intn(8)]
		}
	default:
		g.r.Read(b)
		for i := 0; i < n && i < 4; i++ {
			b[i] = byte(g.r.Intn(2) * (1 + g.r.Intn(4)))
		}
	}
	return b
}
