package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"sync/atomic"
	"unsafe"

	bin "github.com/gagliardetto/binary"
)

// Test types with their own codec. Their formats are part of the
// specification (spec/Wire.tla, Cust*).

// CustA: methods on the value.
type CustA struct {
	X uint16
	S string
}

var encCalls, decCalls int64 // calls of the methods below

type oddError struct{}

func (oddError) Error() string        { return "" }
func (oddError) Is(target error) bool { return true }
func (oddError) Timeout() bool        { return true }
func (oddError) Temporary() bool      { return true }

// refusals: errors a method or a writer may return, none of which a caller
// may take for anything but a failure
var refusals = []error{
	io.EOF, errors.New("refused"), io.ErrUnexpectedEOF, bin.ErrVarIntBufferSize, io.ErrShortBuffer, fmt.Errorf("wrapped: %w", io.EOF),
	io.ErrShortWrite, &bin.InvalidDecoderError{}, io.ErrNoProgress, oddError{}, io.ErrClosedPipe, os.ErrNotExist,
}

func (c CustA) MarshalWithEncoder(e *bin.Encoder) error {
	atomic.AddInt64(&encCalls, 1)
	yieldPoint()
	if c.X == 0xDEAD {
		return refusals[len(c.S)%len(refusals)]
	}
	if err := e.WriteByte(0xA5); err != nil {
		return err
	}
	if err := e.WriteUint16(c.X, binary.BigEndian); err != nil {
		return err
	}
	return e.WriteString(c.S)
}

func (c *CustA) UnmarshalWithDecoder(d *bin.Decoder) error {
	atomic.AddInt64(&decCalls, 1)
	yieldPoint()
	b, err := d.ReadByte()
	if err != nil {
		return err
	}
	if b != 0xA5 {
		return fmt.Errorf("CustA marker is %x", b)
	}
	if c.X, err = d.ReadUint16(binary.BigEndian); err != nil {
		return err
	}
	if c.S, err = d.ReadString(); err != nil {
		return err
	}
	if c.X == 0xBEEF {
		return refusals[len(c.S)%len(refusals)]
	}
	return nil
}

// CustP: methods on the pointer only; refuses to encode 0xDExx and to decode
// 0xBExx.
type CustP struct{ X uint16 }

func (c *CustP) MarshalWithEncoder(e *bin.Encoder) error {
	atomic.AddInt64(&encCalls, 1)
	if c.X>>8 == 0xDE {
		return refusals[int(c.X&0xFF)%len(refusals)]
	}
	if err := e.WriteByte(0xB6); err != nil {
		return err
	}
	return e.WriteUint16(c.X, binary.BigEndian)
}

func (c *CustP) UnmarshalWithDecoder(d *bin.Decoder) error {
	atomic.AddInt64(&decCalls, 1)
	b, err := d.ReadByte()
	if err != nil {
		return err
	}
	if b != 0xB6 {
		return fmt.Errorf("CustP marker is %x", b)
	}
	if c.X, err = d.ReadUint16(binary.BigEndian); err != nil {
		return err
	}
	if c.X>>8 == 0xBE {
		return refusals[int(c.X&0xFF)%len(refusals)]
	}
	return nil
}

// CustK: an unsigned integer kind with its own codec.
type CustK uint16

func (c CustK) MarshalWithEncoder(e *bin.Encoder) error {
	atomic.AddInt64(&encCalls, 1)
	if err := e.WriteByte(0xC7); err != nil {
		return err
	}
	return e.WriteUint16(uint16(c), binary.BigEndian)
}

func (c *CustK) UnmarshalWithDecoder(d *bin.Decoder) error {
	atomic.AddInt64(&decCalls, 1)
	b, err := d.ReadByte()
	if err != nil {
		return err
	}
	if b != 0xC7 {
		return fmt.Errorf("CustK marker is %x", b)
	}
	n, err := d.ReadUint16(binary.BigEndian)
	*c = CustK(n)
	return err
}

// CustN delegates to the reflective codec.
type CustN struct {
	A uint16
	B []byte
	C uint32
}

type custNInner struct {
	A uint16 `bin:"big"`
	B []byte
}

func (c CustN) MarshalWithEncoder(e *bin.Encoder) error {
	atomic.AddInt64(&encCalls, 1)
	if err := e.Encode(custNInner{c.A, c.B}); err != nil {
		return err
	}
	yieldPoint()
	return e.Encode(c.C)
}

func (c *CustN) UnmarshalWithDecoder(d *bin.Decoder) error {
	atomic.AddInt64(&decCalls, 1)
	var in custNInner
	if err := d.Decode(&in); err != nil {
		return err
	}
	yieldPoint()
	c.A, c.B = in.A, in.B
	return d.Decode(&c.C)
}

// CustO delegates to an order-aware library type, which uses the byte order
// of the field it is in.
type CustO struct{ V uint64 }

func (c CustO) MarshalWithEncoder(e *bin.Encoder) error {
	atomic.AddInt64(&encCalls, 1)
	return bin.Uint64(c.V).MarshalWithEncoder(e)
}

func (c *CustO) UnmarshalWithDecoder(d *bin.Decoder) error {
	atomic.AddInt64(&decCalls, 1)
	var u bin.Uint64
	if err := u.UnmarshalWithDecoder(d); err != nil {
		return err
	}
	c.V = uint64(u)
	return nil
}

// CustM encodes a struct with a big-endian field and then a number in the
// byte order of the field it is in.
type CustM struct {
	A uint16
	B uint64
}

type custMInner struct {
	A uint16 `bin:"big"`
}

func (c CustM) MarshalWithEncoder(e *bin.Encoder) error {
	atomic.AddInt64(&encCalls, 1)
	if err := e.Encode(custMInner{c.A}); err != nil {
		return err
	}
	return bin.Uint64(c.B).MarshalWithEncoder(e)
}

func (c *CustM) UnmarshalWithDecoder(d *bin.Decoder) error {
	atomic.AddInt64(&decCalls, 1)
	var in custMInner
	if err := d.Decode(&in); err != nil {
		return err
	}
	var u bin.Uint64
	if err := u.UnmarshalWithDecoder(d); err != nil {
		return err
	}
	c.A, c.B = in.A, uint64(u)
	return nil
}

// CustR: an array kind with its own codec.
type CustR [3]byte

func (c CustR) MarshalWithEncoder(e *bin.Encoder) error {
	atomic.AddInt64(&encCalls, 1)
	return e.WriteBytes([]byte{0xD2, c[2], c[1], c[0]}, false)
}

func (c *CustR) UnmarshalWithDecoder(d *bin.Decoder) error {
	atomic.AddInt64(&decCalls, 1)
	b, err := d.ReadNBytes(4)
	if err != nil {
		return err
	}
	if b[0] != 0xD2 {
		return fmt.Errorf("CustR marker is %x", b[0])
	}
	c[0], c[1], c[2] = b[3], b[2], b[1]
	return nil
}

// CustL: a slice kind with its own codec.
type CustL []uint16

func (c CustL) MarshalWithEncoder(e *bin.Encoder) error {
	atomic.AddInt64(&encCalls, 1)
	if err := e.WriteBytes([]byte{0xD3, byte(len(c))}, false); err != nil {
		return err
	}
	for _, x := range c {
		if err := e.WriteUint16(x, binary.BigEndian); err != nil {
			return err
		}
	}
	return nil
}

func (c *CustL) UnmarshalWithDecoder(d *bin.Decoder) error {
	atomic.AddInt64(&decCalls, 1)
	b, err := d.ReadNBytes(2)
	if err != nil {
		return err
	}
	if b[0] != 0xD3 {
		return fmt.Errorf("CustL marker is %x", b[0])
	}
	out := make(CustL, b[1])
	for i := range out {
		if out[i], err = d.ReadUint16(binary.BigEndian); err != nil {
			return err
		}
	}
	*c = out
	return nil
}

// CustD: a map kind with its own codec.
type CustD map[uint8]uint8

func (c CustD) MarshalWithEncoder(e *bin.Encoder) error {
	atomic.AddInt64(&encCalls, 1)
	out := []byte{0xD4, byte(len(c))}
	for k := 0; k < 256; k++ {
		if x, ok := c[uint8(k)]; ok {
			out = append(out, byte(k), x)
		}
	}
	return e.WriteBytes(out, false)
}

func (c *CustD) UnmarshalWithDecoder(d *bin.Decoder) error {
	atomic.AddInt64(&decCalls, 1)
	b, err := d.ReadNBytes(2)
	if err != nil {
		return err
	}
	if b[0] != 0xD4 {
		return fmt.Errorf("CustD marker is %x", b[0])
	}
	out := CustD{}
	for n := int(b[1]); n > 0; n-- {
		e, err := d.ReadNBytes(2)
		if err != nil {
			return err
		}
		out[e[0]] = e[1]
	}
	*c = out
	return nil
}

// Named kinds without methods.
type (
	NU8  uint8
	NU16 uint16
	NU32 uint32
	NU64 uint64
	NI8  int8
	NI16 int16
	NI32 int32
	NI64 int64
	NF32 float32
	NF64 float64
	NStr string
	NBl  bool
)

var exact = map[reflect.Type]string{
	reflect.TypeOf(bin.Uint128{}):      "Uint128",
	reflect.TypeOf(bin.Int128{}):       "Int128",
	reflect.TypeOf(bin.Float128{}):     "Float128",
	reflect.TypeOf(bin.Int64(0)):       "Int64",
	reflect.TypeOf(bin.Uint64(0)):      "Uint64",
	reflect.TypeOf(bin.JSONFloat64(0)): "JSONFloat64",
	reflect.TypeOf(bin.SafeString("")): "SafeString",
	reflect.TypeOf(bin.Bool(false)):    "Bool",
	reflect.TypeOf(bin.HexBytes{}):     "HexBytes",
	reflect.TypeOf(bin.Varint16(0)):    "Varint16",
	reflect.TypeOf(bin.Varuint16(0)):   "Varuint16",
	reflect.TypeOf(bin.Varint32(0)):    "Varint32",
	reflect.TypeOf(bin.Varuint32(0)):   "Varuint32",
	reflect.TypeOf(CustA{}):            "CustA",
	reflect.TypeOf(CustP{}):            "CustP",
	reflect.TypeOf(CustK(0)):           "CustK",
	reflect.TypeOf(CustN{}):            "CustN",
	reflect.TypeOf(CustO{}):            "CustO",
	reflect.TypeOf(CustM{}):            "CustM",
	reflect.TypeOf(CustR{}):            "CustR",
	reflect.TypeOf(CustL{}):            "CustL",
	reflect.TypeOf(CustD{}):            "CustD",
	reflect.TypeOf(CsU8(0)):            "CsU8",
	reflect.TypeOf(CsU32(0)):           "CsU32",
	reflect.TypeOf(CsU64(0)):           "CsU64",
	reflect.TypeOf(CsI8(0)):            "CsI8",
	reflect.TypeOf(CsI16(0)):           "CsI16",
	reflect.TypeOf(CsI32(0)):           "CsI32",
	reflect.TypeOf(CsI64(0)):           "CsI64",
	reflect.TypeOf(CsF32(0)):           "CsF32",
	reflect.TypeOf(CsF64(0)):           "CsF64",
	reflect.TypeOf(CsBl(false)):        "CsBl",
	reflect.TypeOf(CsSt("")):           "CsSt",
}

var exactByName = map[string]reflect.Type{}

// named Go types selectable through a schema's g
var named = map[string]reflect.Type{
	"NU8": reflect.TypeOf(NU8(0)), "NU16": reflect.TypeOf(NU16(0)), "NU32": reflect.TypeOf(NU32(0)), "NU64": reflect.TypeOf(NU64(0)),
	"NI8": reflect.TypeOf(NI8(0)), "NI16": reflect.TypeOf(NI16(0)), "NI32": reflect.TypeOf(NI32(0)), "NI64": reflect.TypeOf(NI64(0)),
	"NF32": reflect.TypeOf(NF32(0)), "NF64": reflect.TypeOf(NF64(0)), "NStr": reflect.TypeOf(NStr("")), "NBl": reflect.TypeOf(NBl(false)),
	"OwnBorshEnum": reflect.TypeOf(BorshEnum(0)),
	"BorshEnum":    reflect.TypeOf(bin.BorshEnum(0)),
	"int":          reflect.TypeOf(int(0)), "uint": reflect.TypeOf(uint(0)), "uintptr": reflect.TypeOf(uintptr(0)),
	"chan": reflect.TypeOf((chan int)(nil)), "func": reflect.TypeOf((func())(nil)),
	"complex64": reflect.TypeOf(complex64(0)), "complex128": reflect.TypeOf(complex128(0)), "unsafe.Pointer": reflect.TypeOf(unsafe.Pointer(nil)),
}

var unsupNames = []string{"int", "uint", "uintptr", "chan", "func", "complex64", "complex128", "unsafe.Pointer"}

func init() {
	for t, n := range exact {
		exactByName[n] = t
	}
}

// ---------------------------------------------------------------------
// Static catalogue: named struct types as users write them.

type Inner struct {
	A uint8
	B int32 `bin:"big"`
	C string
}

type Emb struct {
	P uint16
	Q []uint32
}

type hidden struct{ Z uint8 }

type Account struct {
	Mint      [32]byte
	Owner     *[32]byte `bin:"optional"`
	Amount    uint64
	Delegate  *Inner `bin:"coption"`
	State     uint8
	Decimals  int8    `bin:"-"`
	Native    *uint64 `bin:"option"`
	note      uint32
	Authority bin.HexBytes
}

type Everything struct {
	A  bool
	B  int8
	C  int16 `bin:"big"`
	D  int32
	E  int64 `bin:"big"`
	F  uint8
	G  uint16 `bin:"little"`
	H  uint32 `bin:"big"`
	I  uint64
	J  float32 `bin:"big"`
	K  float64
	L  string
	M  [3]uint16
	N  []uint64
	O  []Inner
	P  *Inner
	Q  bin.Uint128 `bin:"big"`
	R  bin.Int128
	S  bin.Float128
	T  bin.Varint16
	U  bin.Varuint16
	V  bin.Varint32
	W  bin.Varuint32
	X  bin.SafeString
	Y  bin.HexBytes
	Z  bin.Bool
	AA bin.Int64 `bin:"big"`
	AB bin.Uint64
	AC bin.JSONFloat64 `bin:"big"`
	AD bin.TypeID
}

type Opts struct {
	A *uint32          `bin:"optional"`
	B uint16           `bin:"optional big"`
	C string           `bin:"option"`
	D []byte           `bin:"option"`
	E *Inner           `bin:"optional"`
	F Inner            `bin:"optional"`
	G *bin.Uint128     `bin:"optional big"`
	H bin.Int64        `bin:"option big"`
	I *[]Inner         `bin:"option"`
	J [2]uint16        `bin:"option"`
	K *CustA           `bin:"option"`
	L CustA            `bin:"option"`
	M *bool            `bin:"optional"`
	N map[string]uint8 `bin:"optional"`
}

type COpts struct {
	A *uint32      `bin:"coption"`
	B uint16       `bin:"coption big"`
	C string       `bin:"coption"`
	D *Inner       `bin:"coption"`
	E *bin.Uint128 `bin:"coption big"`
	F *uint8       `bin:"optional coption"`
	G CustO        `bin:"coption big"`
}

type Skips struct {
	A uint8
	B uint32 `bin:"-"`
	C uint16
	D *Inner `bin:"skip"`
	e uint64
	F string `borsh_skip:"true"`
	G interface{}
	H int8
	I []int  `bin:"-"`
	J uint32 `bin:"big"`
	K []byte
	_ uint16
	L uint16
}

type Nested struct {
	Emb
	hidden
	Name string
	In   Inner
	Ptr  **Inner
	List []*Inner
	Arr  [2]Inner
	M    map[string]Inner
	MM   map[int16][]string
}

// embedded fields are fields like any other
type Embs struct {
	A uint8
	*Inner
	NU16 `bin:"big"`
	Emb
	NStr
	*NI32 `bin:"big"`
	Z     uint16
}

type EmbOpt struct {
	*Emb   `bin:"optional"`
	Inner  `bin:"coption"`
	NU64   `bin:"-"`
	NI64   `bin:"big"`
	*NF64  `bin:"option big"`
	hidden `bin:"big"`
	Z      uint32
}

type EmbDeep struct {
	EmbOpt
	*Embs
	NBl
	Tail *EmbOpt `bin:"optional"`
}

type Sized struct {
	N1 uint8  `bin:"sizeof=D1"`
	N2 uint16 `bin:"sizeof=D2 big"`
	D1 []byte
	X  uint32
	D2 []Inner
	N3 bin.Varuint16 `bin:"sizeof=D3"`
	D3 []uint32
	N4 int64 `bin:"sizeof=D4"`
	D4 []string
	Y  []byte
}

type SizedPtr struct {
	N uint32 `bin:"sizeof=D"`
	D *[]uint16
	T uint8
}

type SizedOpt struct {
	N uint16   `bin:"sizeof=D"`
	D []uint16 `bin:"optional"`
	T uint8
}

type Ext struct {
	A uint16
	B []byte
	C uint32 `bin:"binary_extension"`
	D string `bin:"binary_extension"`
	E *Inner `bin:"binary_extension"`
}

type Ext1 struct {
	A uint8
	B []uint16 `bin:"binary_extension"`
}

type ExtOpt struct {
	A uint8
	B *uint32    `bin:"optional binary_extension"`
	C bin.Uint64 `bin:"binary_extension big"`
}

type EnumA struct {
	Enum  bin.BorshEnum `borsh_enum:"true"`
	Empty bin.EmptyVariant
	S     Inner
	N     uint32
	P     *Inner
	L     []uint16
	Ar    [3]uint8
	M     map[string]uint8
	St    string
	Cu    CustA
	PN    *uint64
	U     bin.Uint128
	LL    []Inner
}

type EnumB struct {
	Enum bin.BorshEnum `bin:"enum"`
	X    struct{}
	Y    struct {
		A uint8
		B *string `bin:"optional"`
	}
	Z EnumC
}

type EnumC struct {
	Enum bin.BorshEnum `borsh_enum:"true"`
	A    uint8
	B    *EnumD
}

type EnumD struct {
	Enum bin.BorshEnum `borsh_enum:"true"`
	A    struct{}
	B    []string
}

type Tx struct {
	Id    uint64
	Act   EnumA
	Acts  []EnumB
	Opt   *EnumC `bin:"optional"`
	ByKey map[uint16]EnumC
	End   uint8
}

type Maps struct {
	A map[int8]uint8
	B map[uint32]string
	C map[string]Inner
	D map[NI64][]byte
	E map[NU64]bool
	F map[float64]uint8
	G map[NStr]uint16
	H map[int32]map[uint8]int64
	I map[bin.Int64]bin.Bool
	J map[int16]*Inner
}

type Customs struct {
	A CustA
	B *CustA
	C *CustP
	D CustK
	E []CustA
	F []CustK
	G [2]CustK
	H [2]CustA
	I map[string]CustA
	J CustN
	K CustO `bin:"big"`
	L []CustO
	M uint16 `bin:"big"`
	N *CustO `bin:"big"`
	O []*CustP
	P *CustN `bin:"optional"`
	Q CustO
}

type Wide struct {
	A []Inner
	B [][]byte
	C [][]uint16
	D []map[uint8]string
	E [2][]uint32
	F []bin.Uint128
	G []*uint32
	H [][2]bin.Int64
	I []bool
	J []float32
	K []NU8
	L [4]NU16
	M []NU32
	N [2]NU64
	O []bin.Varuint16
	P []bin.Uint64
	Q []bin.SafeString
	R []string
	S []int16
	T [3]int64
}

// BorshEnum: a caller's own type, with the name of the library's
type BorshEnum uint8

// Blanks: explicit padding, as in structs laid out for C
type Blanks struct {
	A uint8
	_ [3]byte
	B uint32
	_ uint32
	C uint16 `bin:"big"`
	_ [2]uint16
	_ struct{ X uint8 }
	D []Padded
	_ [0]uint64
	_ []byte
	E string
	_ *uint64
	_ [8]byte
}

type Padded struct {
	_ [7]uint8
	A uint8
	_ bool
	B uint16
}

var catalogue = map[string]reflect.Type{
	"Noisy": reflect.TypeOf(Noisy{}),
	"Inner": reflect.TypeOf(Inner{}), "Account": reflect.TypeOf(Account{}), "Everything": reflect.TypeOf(Everything{}),
	"Opts": reflect.TypeOf(Opts{}), "COpts": reflect.TypeOf(COpts{}), "Skips": reflect.TypeOf(Skips{}),
	"Nested": reflect.TypeOf(Nested{}), "Sized": reflect.TypeOf(Sized{}), "SizedPtr": reflect.TypeOf(SizedPtr{}),
	"SizedOpt": reflect.TypeOf(SizedOpt{}),
	"Ext":      reflect.TypeOf(Ext{}), "Ext1": reflect.TypeOf(Ext1{}), "ExtOpt": reflect.TypeOf(ExtOpt{}),
	"EnumA": reflect.TypeOf(EnumA{}), "EnumB": reflect.TypeOf(EnumB{}), "EnumC": reflect.TypeOf(EnumC{}), "EnumD": reflect.TypeOf(EnumD{}),
	"Tx": reflect.TypeOf(Tx{}), "Maps": reflect.TypeOf(Maps{}), "Customs": reflect.TypeOf(Customs{}), "Embs": reflect.TypeOf(Embs{}), "EmbOpt": reflect.TypeOf(EmbOpt{}), "EmbDeep": reflect.TypeOf(EmbDeep{}), "Wide": reflect.TypeOf(Wide{}),
	"Blanks": reflect.TypeOf(Blanks{}),
	"Boxes":  reflect.TypeOf(Boxes{}), "Tagged": reflect.TypeOf(Tagged{}),
}

var boxes = []reflect.Type{
	reflect.TypeOf(NKey{}), reflect.TypeOf(NQuad{}), reflect.TypeOf(NPair{}), reflect.TypeOf(NKeys{}), reflect.TypeOf(NBytes{}),
	reflect.TypeOf(NTags{}), reflect.TypeOf(NWords{}), reflect.TypeOf(NInts{}), reflect.TypeOf(NStrs{}), reflect.TypeOf(NIn{}),
	reflect.TypeOf(NGrid{}), reflect.TypeOf(NText{}), reflect.TypeOf(NPtrs{}), reflect.TypeOf(NFlags{}),
	reflect.TypeOf(NDict{}), reflect.TypeOf(NSet{}), reflect.TypeOf(NIndex{}), // maps last
}

// box: a named container type
func (g *G) box() *Sch {
	n := len(boxes)
	if g.noMap {
		n -= 3
	}
	return schemaOf(boxes[g.r.Intn(n)])
}

// Named containers, and tags as people write them.
type (
	NKey   [32]byte
	NQuad  [4]uint16
	NPair  [2]int32
	NKeys  []NKey
	NBytes []byte
	NTags  []NU8
	NWords []uint16
	NInts  []int16
	NStrs  []string
	NIn    []Inner
	NDict  map[string]uint16
	NSet   map[NU8]bool
	NIndex map[int16]NBytes
	NGrid  [2][3]uint8
	NText  []NStr
	NPtrs  []*Inner
	NFlags [3]bool
)

type Boxes struct {
	A NKey
	B NQuad `bin:"big"`
	C NPair `bin:"optional"`
	D NKeys
	E NBytes `bin:"option"`
	F *NWords
	G NInts
	H NStrs
	I NIn `bin:"coption"`
	J NDict
	K *NSet `bin:"optional"`
	L NIndex
	M NGrid
	N NText
	O NPtrs
	P *NFlags `bin:"optional"`
	Q NTags
}

type Tagged struct {
	A uint16  `bin:"  big"`
	B *uint16 `bin:"optional  big "`
	C uint32  `borsh_skip:" true "`
	D uint32  `json:"d,omitempty" bin:"big" text:"x"`
	E uint16  `bin:"big little"`
	F uint16  `bin:"little big"`
	G uint16  `bin:"unknown"`
	H uint64  `bin:"- big"`
	I uint16  `borsh_skip:"false" bin:"big"`
	J int64   `bin:"option big"`
	K []byte  `bin:"optional,big"`
	L uint16  `bin:"BIG"`
	M uint32  `bin:"bigger optionally"`
	N uint8   `bin:"sizeof=O"`
	O []int16 `bin:"optional big"`
	P float32 `bin:"big"`
	Q bool    `bin:"big"`
	R string  `bin:"big"`
}

// Struct types with the same name, declared in different functions, as
// reflect.Type.String cannot tell apart; in pairs they differ in tags, in
// field types, in field order or in number of fields only.
func twins() []reflect.Type {
	var ts []reflect.Type
	func() {
		type Rec struct {
			A uint16
			B uint32
			C []uint8
		}
		ts = append(ts, reflect.TypeOf(Rec{}))
	}()
	func() {
		type Rec struct {
			A uint16 `bin:"big"`
			B uint32 `bin:"optional"`
			C []uint8
		}
		ts = append(ts, reflect.TypeOf(Rec{}))
	}()
	func() {
		type Rec struct {
			A uint16 `bin:"sizeof=C"`
			B uint32 `bin:"-"`
			C []uint8
		}
		ts = append(ts, reflect.TypeOf(Rec{}))
	}()
	func() {
		type Rec struct {
			A uint32
			B uint16
			C []uint8 `bin:"coption"`
		}
		ts = append(ts, reflect.TypeOf(Rec{}))
	}()
	func() {
		type Rec struct {
			B uint32
			A uint16
		}
		ts = append(ts, reflect.TypeOf(Rec{}))
	}()
	func() {
		type Rec struct {
			A bin.BorshEnum `borsh_enum:"true"`
			B uint32
			C []uint8
		}
		ts = append(ts, reflect.TypeOf(Rec{}))
	}()
	func() {
		type Rec struct {
			A uint16
			B uint32  `bin:"binary_extension"`
			C []uint8 `bin:"binary_extension"`
		}
		ts = append(ts, reflect.TypeOf(Rec{}))
	}()
	return ts
}

var nameOf = map[reflect.Type]string{}
var twinNames []string

func init() {
	for n, t := range noisyKinds {
		named[n] = t
	}
	for n, t := range catalogue {
		named[n] = t
	}
	for _, t := range boxes {
		named[t.Name()] = t
	}
	for i, t := range twins() {
		n := fmt.Sprintf("Rec%d", i)
		named[n] = t
		twinNames = append(twinNames, n)
	}
	for n, t := range named {
		nameOf[t] = n
	}
}

// twin: one of the types called Rec
func (g *G) twin() *Sch { return schemaOf(named[twinNames[g.r.Intn(len(twinNames))]]) }
