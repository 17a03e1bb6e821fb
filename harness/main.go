package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"strconv"
	"time"
)

// Scen is a scenario enumerated by TLC from the specification.
type Scen struct {
	T *Sch        `json:"t"`
	V interface{} `json:"v"`
}

// X drives one property's exploration.
type X struct {
	prop, tier string
	seed       int64
	scen       []Scen
	extra      string // further specification-made input
	only       int
	n          int
	w          *bufio.Writer
	cur        *os.File
	beat       chan int
	events     int
}

func (x *X) thorough() bool { return x.tier == "thorough" }

// size picks a bound by tier
func (x *X) size(quick, thorough int) int {
	if x.thorough() {
		return thorough
	}
	return quick
}

// Sess is one recorded session.
type Sess struct {
	turn int
	evs  []interface{}
	dec  map[int]*decObj
	enc  map[int]*encObj
}

func (s *Sess) add(op string, fields obj, o interface{}) {
	fields["op"] = op
	fields["o"] = o
	s.evs = append(s.evs, fields)
}

func subSeed(parts ...interface{}) int64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	return int64(h.Sum64() >> 1)
}

// session runs f and records what it did.
func (x *X) session(f func(s *Sess, g *G)) {
	id := x.n
	x.n++
	if x.only >= 0 && id != x.only {
		return
	}
	if x.cur != nil {
		x.cur.WriteAt([]byte(fmt.Sprintf("%-12d", id)), 0)
	}
	x.beat <- id
	s := &Sess{dec: map[int]*decObj{}, enc: map[int]*encObj{}, turn: id}
	func() {
		defer func() {
			if r := recover(); r != nil {
				// the library produced something the harness cannot represent
				s.add("harness", obj{"why": fmt.Sprint(r) + "\n" + string(debug.Stack())}, obj{"r": "panic"})
			}
		}()
		f(s, newG(subSeed(x.seed, "/", x.prop, "/", id)))
	}()
	if len(s.evs) == 0 {
		return
	}
	b, err := json.Marshal(obj{"id": id, "evs": s.evs})
	if err != nil {
		panic(err)
	}
	x.events += len(s.evs)
	x.w.Write(b)
	x.w.WriteByte('\n')
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	scen := flag.String("scen", "", "scenarios written by TLC (ndjson)")
	extra := flag.String("extra", "", "property-specific input written by TLC")
	out := flag.String("out", "", "trace to write (ndjson)")
	only := flag.Int("only", -1, "run this session only")
	curF := flag.String("cur", "", "file that receives the number of the running session")
	limit := flag.Int("limit", 60, "seconds one session may take")
	flag.Parse()

	x := &X{prop: *prop, tier: *tier, seed: *seed, extra: *extra, only: *only, beat: make(chan int)}
	if *scen != "" {
		f, err := os.Open(*scen)
		if err != nil {
			fatal(err)
		}
		d := json.NewDecoder(bufio.NewReaderSize(f, 1<<20))
		for d.More() {
			var s Scen
			if err := d.Decode(&s); err != nil {
				fatal(err)
			}
			x.scen = append(x.scen, s)
		}
		f.Close()
	}
	f, err := os.Create(*out)
	if err != nil {
		fatal(err)
	}
	x.w = bufio.NewWriterSize(f, 1<<20)
	if *curF != "" {
		if x.cur, err = os.Create(*curF); err != nil {
			fatal(err)
		}
	}
	go func() {
		last := -1
		t := time.NewTimer(time.Duration(*limit) * time.Second)
		for {
			select {
			case last = <-x.beat:
				if !t.Stop() {
					select {
					case <-t.C:
					default:
					}
				}
				t.Reset(time.Duration(*limit) * time.Second)
			case <-t.C:
				fmt.Fprintln(os.Stderr, "HANG session", last)
				os.Exit(97)
			}
		}
	}()
	run, ok := props[*prop]
	if !ok {
		fatal("no such property " + *prop)
	}
	run(x)
	if err := x.w.Flush(); err != nil {
		fatal(err)
	}
	f.Close()
	fmt.Println(strconv.Itoa(x.n), strconv.Itoa(x.events))
}

func fatal(a ...interface{}) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(98)
}
