package main

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sync"

	bin "github.com/gagliardetto/binary"
)

// Schedules. A controlled run executes one goroutine at a time; a goroutine
// hands control back inside every Write it receives (before looking at the
// bytes) and inside the methods of the test types.
type controller struct {
	mu      sync.Mutex
	current int
	resume  []chan struct{}
	parked  chan int
}

var ctl *controller

func yieldPoint() {
	c := ctl
	if c == nil {
		return
	}
	me := c.current
	c.parked <- me
	<-c.resume[me]
}

type gated struct{ got []byte }

func (w *gated) Write(b []byte) (int, error) {
	yieldPoint()
	w.got = append(w.got, b...)
	return len(b), nil
}

type thread struct {
	k    string // enc, dec, var or case
	m    string
	t    *Sch
	v    reflect.Value
	data []byte
	// result
	r   string
	out []byte
	dst reflect.Value
	pos int
	// dst is there already (making types synchronises goroutines)
	made bool
}

func (th *thread) run(w interface {
	Write([]byte) (int, error)
}) {
	if th.k == "enc" {
		th.r = try2(func() error { return bin.NewEncoderWithEncoding(w, encodings[th.m]).Encode(th.v.Interface()) })
		return
	}
	if !th.made {
		th.dst = reflect.New(typeOf(th.t))
	}
	var d *bin.Decoder
	th.r = try2(func() error {
		d = bin.NewDecoderWithEncoding(th.data, encodings[th.m])
		return d.Decode(th.dst.Interface())
	})
	th.pos = clamp(int64(d.Position()))
}

// try2 is try without the shared diagnostics
func try2(f func() error) (r string) {
	defer func() {
		if p := recover(); p != nil {
			r = "panic"
		}
	}()
	if f() != nil {
		return "err"
	}
	return "ok"
}

func (th *thread) json() (obj, obj) {
	in := obj{"k": th.k, "m": th.m, "t": th.t}
	if th.k == "enc" {
		in["v"] = valOf(th.t, th.v)
		return in, obj{"r": th.r, "out": cp(th.out)}
	}
	in["data"] = bs(th.data)
	return in, obj{"r": th.r, "pos": th.pos, "v": orEmpty(th.r, func() interface{} { return valOf(th.t, th.dst.Elem()) })}
}

// controlled runs the threads under sched (then round robin to the end).
func controlled(ths []*thread, sched []int) int {
	c := &controller{parked: make(chan int), resume: make([]chan struct{}, len(ths))}
	done := make([]bool, len(ths))
	started := make([]bool, len(ths))
	finished := make(chan int)
	for i := range ths {
		c.resume[i] = make(chan struct{})
	}
	ctl = c
	steps := 0
	step := func(i int) {
		if done[i] {
			return
		}
		steps++
		c.current = i
		if !started[i] {
			started[i] = true
			go func(i int) {
				w := &gated{}
				ths[i].run(w)
				ths[i].out = w.got
				finished <- i
			}(i)
		} else {
			c.resume[i] <- struct{}{}
		}
		select {
		case <-c.parked:
		case <-finished:
			done[i] = true
		}
	}
	for _, i := range sched {
		step(i % len(ths))
	}
	for left := true; left; {
		left = false
		for i := range ths {
			if !done[i] {
				left = true
				step(i)
			}
		}
	}
	ctl = nil
	return steps
}

// threads: random sessions; some share values, types and input buffers
func (g *G) threads(n int) []*thread {
	var ths []*thread
	var shared []byte
	for len(ths) < n {
		if len(ths) > 0 && g.one(3) { // same value or buffer as another one
			o := ths[g.r.Intn(len(ths))]
			c := *o
			if c.k == "enc" && g.one(3) && !floatKeys(c.t) {
				data, r := encode(0, c.m, c.v)
				if r == "ok" {
					ths = append(ths, &thread{k: "dec", m: c.m, t: c.t, data: data})
					continue
				}
			}
			ths = append(ths, &c)
			continue
		}
		t := g.anySch()
		if g.one(3) {
			t = schemaOf(catalogue[g.pick("Customs", "Inner", "Opts", "EnumA", "Sized", "Maps", "Everything")])
		}
		m := g.mode()
		if floatKeys(t) {
			m = "borsh"
		}
		v := g.value(t, 6)
		if m != "borsh" && bigMap(t, v) {
			m = "borsh"
		}
		data, r := encode(0, m, v)
		if g.one(2) || r != "ok" || floatKeys(t) {
			ths = append(ths, &thread{k: "enc", m: m, t: t, v: v})
		} else {
			if g.one(4) {
				data = g.mutate(data)
			}
			if shared != nil && g.one(3) {
				data = shared
			}
			shared = data
			ths = append(ths, &thread{k: "dec", m: m, t: t, data: data})
		}
	}
	return ths
}

func p27(x *X) {
	var scheds [][]int
	x.readExtra(func(raw json.RawMessage) {
		var s struct {
			S []int `json:"s"`
			N int   `json:"n"`
		}
		if err := json.Unmarshal(raw, &s); err != nil {
			fatal(err)
		}
		scheds = append(scheds, append([]int{s.N}, s.S...))
	})
	emit := func(s *Sess, ths []*thread, sched []int) {
		controlled(ths, sched)
		in, o := list{}, list{}
		for _, th := range ths {
			a, b := th.json()
			in, o = append(in, a), append(o, b)
		}
		s.add("conc", obj{"th": in, "sched": sched}, o)
	}
	limit := x.size(700, len(scheds))
	stride := 1
	if len(scheds) > limit {
		stride = len(scheds) / limit
	}
	for i := int(x.seed) % stride; i < len(scheds); i += stride {
		x.session(func(s *Sess, g *G) {
			n := scheds[i][0]
			emit(s, g.threads(n), scheds[i][1:])
		})
	}
	x.random(x.size(300, 10000), func(s *Sess, g *G) {
		n := 2 + g.r.Intn(3)
		ths := g.threads(n)
		sched := make([]int, 120)
		for i := range sched {
			sched[i] = g.r.Intn(n)
		}
		emit(s, ths, sched)
	})
}

var nonce int

// unseen: threads that share a struct type which the library has never been
// given before (field names and tags are new), to catch first-use
// initialisation
func (g *G) unseen(n int) []*thread {
	nonce++
	id := func(s string) string { return fmt.Sprintf("%s%dx%d", s, nonce, g.r.Intn(1<<20)) }
	list := id("List")
	t := &Sch{K: "struct", F: []Fld{
		{N: id("Count"), T: &Sch{K: "u8"}, So: list},
		{N: list, T: &Sch{K: "slice", E: &Sch{K: "u16"}}},
		{N: id("Big"), T: &Sch{K: "u32"}, Big: true},
		{N: id("Opt"), T: &Sch{K: "u16"}, Opt: true},
	}}
	if g.one(2) {
		t.F = append(t.F, Fld{N: id("In"), T: &Sch{K: "struct", F: []Fld{{N: id("N"), T: &Sch{K: "i16"}, So: id("None")}, {N: id("S"), T: &Sch{K: "u8"}, Skip: true}}}})
	}
	for i := 0; i < g.r.Intn(3); i++ {
		t.F = append(t.F, Fld{N: id("F"), T: g.leaf(), Big: g.one(2)})
	}
	m := g.mode()
	var ths []*thread
	for len(ths) < n {
		if g.one(2) {
			v := reflect.New(typeOf(t)).Elem()
			if g.one(2) {
				v.Field(1).Set(reflect.ValueOf([]uint16{1, uint16(g.r.Intn(1 << 16))}))
				v.Field(0).SetUint(2)
			}
			ths = append(ths, &thread{k: "enc", m: m, t: t, v: v})
			continue
		}
		data := make([]byte, 64)
		g.r.Read(data)
		data[0] = byte(g.r.Intn(3))
		ths = append(ths, &thread{k: "dec", m: m, t: t, data: data})
	}
	return ths
}

// p27race: free-running goroutines, for the race detector build
// firstUse: before this process has used the library at all, several
// goroutines encode and decode values of every kind, in the same order, so that
// anything set up on first use is set up by several at once
func firstUse(s *Sess, g *G) {
	const n = 4
	var ts []*Sch
	for _, k := range []string{"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "bool", "str"} {
		for _, e := range []*Sch{{K: k}, {K: k, G: namedK[k]}} {
			ts = append(ts, &Sch{K: "slice", E: e}, &Sch{K: "arr", N: 2, E: e}, &Sch{K: "ptr", E: e},
				&Sch{K: "struct", F: []Fld{{N: "A", T: e, Opt: true}, {N: "B", T: e, Copt: true}, {N: "C", T: e, Big: true}}})
			if k != "bool" && k != "f32" && k != "f64" {
				ts = append(ts, &Sch{K: "map", Key: e, E: &Sch{K: "u8"}})
			}
		}
	}
	for _, k := range []string{"Uint128", "Int128", "Float128", "Uint64", "Int64", "Bool", "HexBytes", "SafeString", "Varint16", "Varint32", "Varuint16", "Varuint32"} {
		ts = append(ts, &Sch{K: k}, &Sch{K: "slice", E: &Sch{K: k}})
	}
	for _, c := range []string{"Customs", "Inner", "Opts", "COpts", "EnumA", "EnumB", "Tx", "Sized", "Everything", "Nested", "Tagged", "Wide"} {
		ts = append(ts, schemaOf(catalogue[c]))
	}
	all := make([][]*thread, n)
	for _, t := range ts {
		for _, m := range []string{"bin", "c16", "borsh"} {
			if m != "borsh" && hasMap(t) {
				continue
			}
			v := g.value(t, 4)
			data := make([]byte, 96)
			for i := range data {
				if data[i] = 0; i%4 == 0 {
					data[i] = byte(g.r.Intn(3))
				}
			}
			for i := range all {
				all[i] = append(all[i], &thread{k: "enc", m: m, t: t, v: v}, &thread{k: "dec", m: m, t: t, data: data, dst: reflect.New(typeOf(t)), made: true})
			}
		}
	}
	g.r.Shuffle(len(all[0])/2, func(i, j int) {
		for _, a := range all {
			a[2*i], a[2*i+1], a[2*j], a[2*j+1] = a[2*j], a[2*j+1], a[2*i], a[2*i+1]
		}
	})
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range all {
		wg.Add(1)
		go func(mine []*thread) {
			defer wg.Done()
			<-start
			for _, th := range mine {
				w := &plain{}
				th.run(w)
				th.out = w.got
			}
		}(all[i])
	}
	close(start)
	wg.Wait()
	for k := range all[0] {
		if (k+nonce)%11 != 0 { // some of them are recorded
			continue
		}
		in, o := list{}, list{}
		for i := range all[:2] {
			a, b := all[i][k].json()
			in, o = append(in, a), append(o, b)
		}
		s.add("conc", obj{"th": in, "sched": []int{}}, o)
	}
}

func p27race(x *X) {
	x.session(firstUse)
	rounds := x.size(25, 400)
	x.random(rounds, func(s *Sess, g *G) {
		ths := g.threads(4)
		ths = append(ths, g.unseen(4)...)
		nonce++
		seen := nonce
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, th := range ths {
			wg.Add(1)
			go func(th *thread) {
				defer wg.Done()
				<-start
				for k := 0; k < 3; k++ {
					w := &plain{}
					th.run(w)
					th.out = w.got
				}
			}(th)
		}
		// the other package-level entry points at the same time
		for k := 0; k < 2; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				<-start
				try2(func() error {
					bin.SighashInstruction(fmt.Sprintf("createUser%d", k))
					bin.SighashAccount("UserAccount")
					bin.SighashInstruction(fmt.Sprintf("closeUser%d", seen)) // both goroutines, for the first time
					bin.SighashAccount(fmt.Sprintf("user_%d", seen))
					bin.ToRustSnakeCase(fmt.Sprintf("UserHTTP%d", seen))
					bin.SighashTypeID("ns"+fmt.Sprint(seen), "name")
					def := bin.NewVariantDefinition(bin.Uint8TypeIDEncoding, []bin.VariantType{{Name: "a", Type: (*Inner)(nil)}, {Name: "b", Type: Emb{}}})
					v := &bin.BaseVariant{}
					v.UnmarshalBinaryVariant(bin.NewBorshDecoder([]byte{1, 1, 2, 0, 0, 0, 0}), def)
					var u bin.Uint128
					u.UnmarshalJSON([]byte(`"12345678901234567890123"`))
					u.MarshalJSON()
					(&bin.InvalidDecoderError{}).Error()
					bin.MustBinByteCount(Inner{C: "x"})
					return nil
				})
			}(k)
		}
		close(start)
		wg.Wait()
		in, o := list{}, list{}
		for _, th := range ths {
			a, b := th.json()
			in, o = append(in, a), append(o, b)
		}
		s.add("conc", obj{"th": in, "sched": []int{}}, o)
	})
	_ = os.Stdout
}
