package main

import (
	"bytes"
	"reflect"

	bin "github.com/gagliardetto/binary"
)

// Recursive types. Their schemas are unrolled to a depth that the data used
// with them cannot reach.

type Node struct {
	V    uint8
	Next *Node `bin:"optional"`
}

type Tree struct {
	V    uint16 `bin:"big"`
	Kids []Tree
}

type List []List

type Dir map[uint8]Dir

type Expr struct {
	Enum bin.BorshEnum `borsh_enum:"true"`
	Lit  uint16
	Neg  *Expr
	Add  struct{ L, R *Expr }
	All  []Expr
}

type Ping struct {
	A    int16
	Pong *Pong `bin:"optional"`
}

type Pong struct {
	Ping []Ping
	B    int8 `bin:"-"`
}

var recTypes = map[string]reflect.Type{
	"Node": reflect.TypeOf(Node{}), "Tree": reflect.TypeOf(Tree{}), "List": reflect.TypeOf(List{}), "Dir": reflect.TypeOf(Dir{}),
	"Expr": reflect.TypeOf(Expr{}), "Ping": reflect.TypeOf(Ping{}),
}
var recNames = []string{"Node", "Tree", "List", "Dir", "Expr", "Ping"}

func init() {
	for n, t := range recTypes {
		named[n] = t
		nameOf[t] = n
	}
	named["Pong"] = reflect.TypeOf(Pong{})
	nameOf[reflect.TypeOf(Pong{})] = "Pong"
}

// recSch unrolls a recursive type: below depth levels of it the schema says
// "stop".
func recSch(name string, depth int) *Sch {
	limit = depth
	defer func() { limit = 0 }()
	return schemaOf(recTypes[name])
}

// limit: remaining unrollings of recursive types in schemaOf
var limit int
var isRec = map[reflect.Type]bool{}

func init() {
	for _, t := range recTypes {
		isRec[t] = true
	}
}

func (s *Sch) stops() bool {
	switch s.K {
	case "stop":
		return true
	case "ptr", "slice", "map", "arr":
		return s.E.stops()
	case "struct":
		for _, f := range s.F {
			if f.T.stops() && s.G == "" {
				return true
			}
		}
	}
	return false
}

// recursive runs the sessions on recursive types for the given formats
func (x *X) recursive(n int, f func(s *Sess, g *G, t *Sch, deep int)) {
	for _, name := range recNames {
		depth := 10
		if name == "Expr" {
			depth = 4 // four ways down at every level
		}
		x.random(n, func(s *Sess, g *G) { f(s, g, recSch(name, depth), depth) })
	}
}

// deepBytes: n bytes that nest as deeply as they can
func deepBytes(how, n int) []byte {
	switch how {
	case 0:
		return bytes.Repeat([]byte{1}, n)
	case 1:
		return bytes.Repeat([]byte{7, 1, 0, 0, 0}, n/5+1)[:n]
	case 2:
		return bytes.Repeat([]byte{1, 0, 0, 0}, n/4+1)[:n]
	case 3:
		return bytes.Repeat([]byte{0, 7, 1}, n/3+1)[:n]
	case 4:
		return bytes.Repeat([]byte{1, 1, 0, 0, 0}, n/5+1)[:n]
	case 5: // enum: variants 1 and 2 (pointers), 3 (slice)
		return bytes.Repeat([]byte{1, 2, 1}, n/3+1)[:n]
	case 6:
		return bytes.Repeat([]byte{3, 1, 0, 0, 0}, n/5+1)[:n]
	case 7: // bin: value, option
		return bytes.Repeat([]byte{9, 1, 0, 0, 0}, n/5+1)[:n]
	default:
		return bytes.Repeat([]byte{2, 0, 0, 0, 9}, n/5+1)[:n]
	}
}
