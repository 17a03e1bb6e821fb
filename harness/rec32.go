package main

import (
	"bytes"
	"fmt"

	bin "github.com/gagliardetto/binary"
)

// tee passes every write on and keeps a copy of each
type tee struct {
	to *bin.WriteByWrite
	ws [][]byte
	ns list
}

func (t *tee) Write(b []byte) (int, error) {
	t.ws = append(t.ws, append([]byte{}, b...))
	n, err := t.to.Write(b)
	t.ns = append(t.ns, n)
	return n, err
}

// P32: the recording writer and the printed forms
func p32(x *X) {
	fmt1 := func(s *Sess, g *G, b []byte) {
		var text, disc string
		pad := []byte{1, 2, 3}
		buf := append(append(append([]byte{}, pad...), b...), pad...)
		r := try(func() error {
			text = bin.FormatByteSlice(b)
			if len(b) == 8 {
				var d [8]byte
				copy(d[:], b)
				disc = bin.FormatDiscriminator(d)
			}
			bin.ReverseBytes(buf[3 : 3+len(b)])
			return nil
		})
		isb := list{}
		for _, v := range []interface{}{b, []byte(nil), string(b), nil, []int{1}, &b, len(b)} {
			isb = append(isb, bin.IsByteSlice(v))
		}
		rest := bytes.Equal(buf[:3], pad) && bytes.Equal(buf[3+len(b):], pad)
		s.add("fmt", obj{"b": bs(b)}, obj{"r": r, "text": bs(text), "disc": bs(disc), "rev": cp(buf[3 : 3+len(b)]), "rest": rest, "bsl": isb})
	}
	x.session(func(s *Sess, g *G) { // every byte value
		for i := 0; i < 256; i++ {
			fmt1(s, g, []byte{byte(i)})
		}
	})
	x.session(func(s *Sess, g *G) { // every length up to 70
		for n := 0; n <= 70; n++ {
			b := make([]byte, n)
			g.r.Read(b)
			fmt1(s, g, b)
		}
	})
	x.random(x.size(2, 12), func(s *Sess, g *G) { // long ones
		for _, n := range []int{[]int{255, 256, 257, 1000, 1023, 1024, 1025, 2049, 4095, 4096}[g.r.Intn(10)], 4097 + g.r.Intn(5000)} {
			b := make([]byte, n)
			g.r.Read(b)
			fmt1(s, g, b)
		}
	})
	x.random(x.size(150, 3000), func(s *Sess, g *G) {
		fmt1(s, g, g.fuzzBytes())
		b := make([]byte, 8)
		g.r.Read(b)
		for i := range b {
			if g.one(3) {
				b[i] = byte(g.r.Intn(12))
			}
		}
		fmt1(s, g, b)
	})
	event := func(s *Sess, g *G, name string, t *tee) {
		ws := list{}
		for _, w := range t.ws {
			ws = append(ws, bs(w))
		}
		out := t.to.Bytes()
		first := cp(out)
		for i := range out { // the result belongs to the caller
			out[i] ^= 0x55
		}
		_ = append(out[:0], "overwritten by the caller"...)
		text := t.to.String()
		if g.one(2) {
			text = fmt.Sprint(t.to)
		}
		s.add("recw", obj{"name": bs(name), "ws": ws}, obj{"ns": append(list{}, t.ns...), "bytes": first, "again": cp(t.to.Bytes()), "text": bs(text)})
	}
	names := []string{"", "rec", "a:b", "tx \n x", "é", "%", "100%", "%d%s%v", "%!", "a\tb", "\x00", "- 0: {}", "\\n", " ", "a\r\n", "名前", "\xff\xfe", "a very long name, longer than what a fixed-size buffer for the heading of a listing might be expected to hold"}
	x.random(x.size(150, 4000), func(s *Sess, g *G) {
		name := names[g.r.Intn(len(names))]
		t := &tee{to: bin.NewWriteByWrite(name)}
		buf := make([]byte, 0, 64) // used for every write, as callers do
		for k := g.r.Intn(14); k >= 0; k-- {
			b := g.fuzzBytes()
			if g.one(3) {
				b = b[:min(len(b), g.r.Intn(3))]
			}
			buf = append(buf[:0], b...)
			if g.one(2) { // no spare capacity
				buf = append([]byte{}, b...)
				buf = buf[:len(buf):len(buf)]
			}
			t.Write(buf)
			for i := range buf {
				buf[i] = byte(g.r.Intn(256))
			}
			if g.one(4) {
				event(s, g, name, t)
			}
		}
		event(s, g, name, t)
	})
	// behind encoders
	both := func(s *Sess, g *G, m string, t *Sch) {
		w := &tee{to: bin.NewWriteByWrite("enc")}
		e := newEnc(m, w, g.r.Intn(2))
		for k := 0; k < 2; k++ {
			v := g.value(t, 8)
			try(func() error { return e.Encode(v.Interface()) })
			event(s, g, "enc", w)
		}
		for k := 0; k < 3; k++ {
			a := g.writeArg(writeOps[g.r.Intn(len(writeOps))])
			if len(a.V) > 100 {
				continue
			}
			try(func() error { return doWrite(e, a) })
		}
		event(s, g, "enc", w)
	}
	for _, sc := range x.pick(60, 0) {
		x.session(func(s *Sess, g *G) { both(s, g, g.mode(), sc.T) })
	}
	x.random(x.size(60, 2000), func(s *Sess, g *G) { both(s, g, g.mode(), g.anySch()) })
	x.session(func(s *Sess, g *G) { // more writes than anything fixed holds
		t := &tee{to: bin.NewWriteByWrite("many")}
		for i := 0; i < 1100+g.r.Intn(60); i++ {
			t.Write([]byte{byte(i), byte(255 - i)}[:i%3])
		}
		event(s, g, "many", t)
	})
	x.session(func(s *Sess, g *G) { // more writes than one digit
		t := &tee{to: bin.NewWriteByWrite("many")}
		for i := 0; i < 120; i++ {
			t.Write([]byte{byte(i), byte(255 - i)}[:i%3])
		}
		event(s, g, "many", t)
	})
}
