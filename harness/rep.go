package main

import (
	"encoding/json"
	"reflect"

	bin "github.com/gagliardetto/binary"
)

// Long sequences of arbitrary elements: a few distinct elements repeated. The
// specification judges the framing and one period; the driver reports whether
// the rest repeats it.

var repCounts = []int{126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4094, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10001, 16383, 16384, 16385}
var repFar = []int{32767, 32768, 32769, 50000, 65534, 65535, 65536, 65537, 70000}

func (g *G) repCount() int {
	if g.one(5) {
		return repFar[g.r.Intn(len(repFar))]
	}
	return repCounts[g.r.Intn(len(repCounts))]
}

// flat: values of t have one encoding only
func hasMap(t *Sch) bool {
	switch t.K {
	case "map":
		return true
	case "ptr", "arr", "slice":
		return hasMap(t.E)
	case "struct":
		for _, f := range t.F {
			if hasMap(f.T) {
				return true
			}
		}
	}
	return false
}

func (g *G) repElem() *Sch {
	if g.one(3) {
		s := &Sch{K: g.pick(append(scalarKs, "f32", "f64")...)}
		if g.one(3) {
			s.G = g.named(s.K)
		}
		return s
	}
	for {
		t := g.wideSch(1)
		if !hasMap(t) {
			return t
		}
	}
}

// rep: what is "plain" (round trip), "cuts" (truncated data), "faults"
// (failing writer) or "agree" (the ways of encoding)
func (s *Sess) rep(g *G, m, what string) { s.repOf(g, m, what, g.repElem(), g.repCount()) }

// reps: every scalar kind and some others, in sequences whose length is at or
// next to a power of two
func (x *X) reps(what string, ms ...string) {
	for _, k := range []string{"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "bool", "str", "Uint64", "Int64", "Uint128", "Varuint16", "Varint32", "CustK", "CustA", "slice", "ptr", "struct"} {
		for _, n := range []int{64, 128, 256, 512, 1024, 2048, 4096, 8192} {
			for _, m := range ms {
				x.session(func(s *Sess, g *G) {
					e := &Sch{K: k}
					switch k {
					case "slice", "ptr":
						e.E = &Sch{K: g.pick("u8", "u16", "u64", "i32")}
					case "struct":
						e.F = []Fld{{N: "A", T: &Sch{K: g.pick("u8", "u16", "Uint64")}, Big: g.one(2)}, {N: "B", T: &Sch{K: "i16"}, Opt: g.one(2)}}
					default:
						if g.one(4) {
							e.G = namedK[k]
						}
					}
					at := n
					if g.one(2) {
						at += g.r.Intn(3) - 1
					}
					s.repOf(g, m, what, e, at)
				})
			}
		}
	}
}

func (s *Sess) repOf(g *G, m, what string, e *Sch, n int) {
	k := g.pick("slice", "slice", "arr")
	p := []int{1, 2, 3, 5, 7}[g.r.Intn(5)]
	et := typeOf(e)
	st := reflect.StructOf([]reflect.StructField{
		{Name: "A", Type: reflect.TypeOf(uint8(0))},
		{Name: "X", Type: reflect.SliceOf(et)},
		{Name: "B", Type: reflect.TypeOf(uint16(0))}})
	if k == "arr" {
		if n > 20000 {
			n = 1000 + n%9000
		}
		f := st.Field(1)
		f.Type = reflect.ArrayOf(n, et)
		st = reflect.StructOf([]reflect.StructField{st.Field(0), f, st.Field(2)})
	}
	vals := reflect.MakeSlice(reflect.SliceOf(et), p, p)
	vs := list{}
	pat := 0
	for i := 0; i < p; i++ {
		vals.Index(i).Set(g.value(e, 4))
		vs = append(vs, valOf(e, vals.Index(i)))
	}
	one := reflect.New(reflect.ArrayOf(p, et)).Elem()
	reflect.Copy(one, vals)
	if out, r := encode(0, m, one); r == "ok" {
		pat = len(out)
	}
	v := reflect.New(st).Elem()
	v.Field(0).SetUint(7)
	v.Field(2).SetUint(0x0908)
	if k == "slice" {
		v.Field(1).Set(reflect.MakeSlice(reflect.SliceOf(et), n, n))
	}
	for i := 0; i < n; i++ {
		v.Field(1).Index(i).Set(vals.Index(i % p))
	}
	fields := obj{"m": m, "t": e, "k": k, "n": n, "vs": vs, "what": what}
	out, er := encode(g.r.Intn(12), m, v)
	head := 1
	if k == "slice" && er == "ok" {
		head += len(countPrefix(m, uint64(n)))
	}
	o := obj{"er": er, "total": len(out), "head": bs{}, "pat": bs{}, "tail": bs{}, "rep": false}
	if er == "ok" && len(out) >= head+2 {
		body := out[head : len(out)-2]
		o["head"], o["tail"] = bs(out[:head]), bs(out[len(out)-2:])
		if pat <= len(body) {
			o["pat"] = bs(body[:pat])
			rep := true
			for i := pat; i < len(body); i++ {
				rep = rep && body[i] == body[i-pat]
			}
			o["rep"] = rep
		}
	}
	switch what {
	case "plain":
		o["dr"], o["pos"], o["back"], o["per"] = "none", 0, list{}, false
		if er == "ok" {
			dst := reflect.New(st)
			d, dr := decodeAt(g.r.Intn(4), m, out, 0, dst)
			o["dr"], o["pos"] = dr, clamp(int64(d.Position()))
			if got := dst.Elem().Field(1); dr == "ok" && got.Len() == n {
				back, per := list{}, dst.Elem().Field(0).Uint() == 7 && dst.Elem().Field(2).Uint() == 0x0908
				first := []string{}
				for i := 0; i < n; i++ {
					val := valOf(e, got.Index(i))
					j, _ := json.Marshal(val)
					if i < p {
						back = append(back, val)
						first = append(first, string(j))
					} else {
						per = per && string(j) == first[i%p]
					}
				}
				o["back"], o["per"] = back, per
			}
		}
	case "cuts":
		cuts := []string{}
		if er == "ok" {
			for i := 0; i < 12; i++ {
				c := g.r.Intn(len(out))
				switch i {
				case 0:
					c = len(out) - 1
				case 1:
					c = len(out) - 2
				case 2:
					c = len(out) - 3
				case 3:
					c = len(out) - 2 - pat
				case 4:
					c = head
				}
				if c < 0 {
					c = 0
				}
				_, dr := decodeAt(i, m, append(make([]byte, 0, c), out[:c]...), 0, reflect.New(st))
				cuts = append(cuts, dr)
			}
		}
		o["cuts"] = cuts
	case "faults":
		fs := list{}
		if er == "ok" {
			for i := 0; i < 14; i++ {
				b := g.r.Intn(len(out) + 1)
				switch i {
				case 0:
					b = len(out) - 1
				case 1:
					b = len(out)
				case 2:
					b = len(out) - 2
				case 3:
					b = len(out) - 3
				case 4:
					b = head
				case 5:
					b = head + pat
				}
				if b < 0 || b > len(out) {
					b = 0
				}
				w := &faulty{kind: faultKinds[(i+g.r.Intn(3))%6], budget: b, err: refusals[(i+b)%len(refusals)]}
				var en *bin.Encoder
				r := try(func() error { en = newEnc(m, w, i); return en.Encode(v.Addr().Interface()) })
				fs = append(fs, obj{"failed": w.failed, "r": r, "n": len(w.got), "w": clamp(int64(en.Written())),
					"pre": len(w.got) <= len(out) && string(w.got) == string(out[:len(w.got)])})
			}
		}
		o["faults"] = fs
	case "agree":
		all := []string{}
		for how := 0; how < 6; how++ {
			b, r := encode(how, m, v)
			if r == er && string(b) == string(out) {
				r = "same"
			}
			all = append(all, r)
		}
		cnt, cr := countOf(m, v.Interface())
		o["all"], o["cr"], o["count"] = all, cr, clamp(int64(cnt))
	}
	s.add("rep", fields, o)
}
