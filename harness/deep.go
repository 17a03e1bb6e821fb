package main

import "reflect"

// Deeply nested values: n levels of a recursive type, each level the same.

func chain(name string, n int) reflect.Value {
	switch name {
	case "Node":
		var last *Node
		for ; n > 0; n-- {
			last = &Node{7, last}
		}
		return reflect.ValueOf(last).Elem()
	case "Tree":
		t := &Tree{V: 0x0102}
		for ; n > 1; n-- {
			t = &Tree{0x0102, []Tree{*t}}
		}
		return reflect.ValueOf(t).Elem()
	case "List":
		l := List{}
		for ; n > 1; n-- {
			l = List{l}
		}
		return reflect.ValueOf(&l).Elem()
	case "Dir":
		d := Dir{}
		for ; n > 1; n-- {
			d = Dir{5: d}
		}
		return reflect.ValueOf(&d).Elem()
	case "Expr":
		e := &Expr{Lit: 0x0403}
		for ; n > 1; n-- {
			e = &Expr{Enum: 1, Neg: e}
		}
		return reflect.ValueOf(e).Elem()
	}
	panic(name)
}

// chainLen: levels of a value, 0 if some level is not as chain makes it
func chainLen(name string, v reflect.Value) (n int) {
	switch x := v.Addr().Interface().(type) {
	case *Node:
		for ; x != nil; x = x.Next {
			if n++; x.V != 7 {
				return 0
			}
		}
	case *Tree:
		for {
			if n++; x.V != 0x0102 || len(x.Kids) > 1 {
				return 0
			}
			if len(x.Kids) == 0 {
				return
			}
			x = &x.Kids[0]
		}
	case *List:
		l := *x
		for n = 1; len(l) == 1; n++ {
			l = l[0]
		}
		if len(l) != 0 {
			return 0
		}
	case *Dir:
		d := *x
		for n = 1; len(d) == 1; n++ {
			next, ok := d[5]
			if !ok {
				return 0
			}
			d = next
		}
		if len(d) != 0 {
			return 0
		}
	case *Expr:
		for n = 1; x.Enum == 1; n++ {
			x = x.Neg
		}
		if x.Enum != 0 || x.Lit != 0x0403 {
			return 0
		}
	}
	return
}

// deep: encodings by one encoder and decodings by one decoder, some of them
// of data that is cut short
func (s *Sess) deep(g *G, m, name string, n, times int) {
	v := chain(name, n)
	w := &plain{}
	e := newEnc(m, w, g.r.Intn(2))
	r := try(func() error { return e.Encode(v.Interface()) })
	out := append([]byte{}, w.got...)
	again := true
	cuts, ds := list{}, list{}
	o := obj{"r": r, "out": bs(out)}
	if r == "ok" {
		d := newDec(m, out, g.r.Intn(2))
		at := len(w.got)
		whole := true
		for k := 0; k < times; k++ {
			if k%4 == 3 {
				if try(func() error { return e.Encode(v.Interface()) }) != "ok" || string(w.got[at:]) != string(out) {
					again = false
				}
				at = len(w.got)
			}
			cut := 0
			if k < times-2 && !g.one(4) {
				cut = 1
				if g.one(2) {
					cut = 1 + g.r.Intn(len(out))
				}
			}
			if cut == 0 && g.one(2) && whole {
				if try(func() error { return d.SetPosition(0) }) != "ok" {
					return
				}
			} else {
				d.Reset(out[:len(out)-cut])
			}
			dst := reflect.New(v.Type())
			dr := try(func() error { return d.Decode(dst.Interface()) })
			cuts = append(cuts, cut)
			ob := obj{"r": dr, "n": 0, "pos": clamp(int64(d.Position()))}
			if dr == "ok" {
				ob["n"] = chainLen(name, dst.Elem())
			}
			ds = append(ds, ob)
			whole = cut == 0
		}
	}
	o["again"], o["ds"] = again, ds
	s.add("deep", obj{"m": m, "k": name, "n": n, "cuts": cuts}, o)
}

var deepNames = []string{"Node", "Tree", "List", "Dir", "Expr"}

// deeps: sessions on deep values for the given formats
func (x *X) deeps(times int, ns []int, ms ...string) {
	for _, name := range deepNames {
		for _, m := range ms {
			if name == "Expr" && m != "borsh" {
				continue // elsewhere it is a struct that contains itself
			}
			for _, n := range ns {
				x.session(func(s *Sess, g *G) { s.deep(g, m, name, n, times) })
			}
		}
	}
}
