package main

import (
	"errors"
	"fmt"
	"reflect"
)

// Types with methods that are none of the codec's business: whatever these
// say, the value is encoded by its kind.

type MU8 uint8

type MU16 uint16

type MU32 uint32

type MU64 uint64

type MI8 int8

type MI16 int16

type MI32 int32

type MI64 int64

type MF32 float32

type MF64 float64

type MStr string

type MBl bool

type MSl []uint16

type MLs []int32

type MArr [3]uint16

type MMp map[string]uint8

type MIn struct {
	A uint8
	B int32 `bin:"big"`
	C string
}

func (m MU8) String() string               { return noise(m) }
func (m MU8) GoString() string             { return noise(m) }
func (m MU8) Error() string                { return noise(m) }
func (MU8) IsZero() bool                   { return true }
func (MU8) IsNil() bool                    { return true }
func (MU8) Len() int                       { return 99 }
func (MU8) Size() int                      { return 1 }
func (MU8) Less(i, j int) bool             { return i > j }
func (MU8) Bytes() []byte                  { return []byte{0xEE} }
func (MU8) MarshalBinary() ([]byte, error) { return []byte{0xEE}, nil }
func (*MU8) UnmarshalBinary([]byte) error  { return errors.New("not for the codec") }
func (MU8) MarshalText() ([]byte, error)   { return []byte("~"), nil }
func (*MU8) UnmarshalText([]byte) error    { return errors.New("not for the codec") }
func (MU8) MarshalJSON() ([]byte, error)   { return []byte("0"), nil }
func (*MU8) UnmarshalJSON([]byte) error    { return errors.New("not for the codec") }
func (*MU8) Reset()                        {}

func (m MU16) String() string               { return noise(m) }
func (m MU16) GoString() string             { return noise(m) }
func (m MU16) Error() string                { return noise(m) }
func (MU16) IsZero() bool                   { return true }
func (MU16) IsNil() bool                    { return true }
func (MU16) Len() int                       { return 99 }
func (MU16) Size() int                      { return 1 }
func (MU16) Less(i, j int) bool             { return i > j }
func (MU16) Bytes() []byte                  { return []byte{0xEE} }
func (MU16) MarshalBinary() ([]byte, error) { return []byte{0xEE}, nil }
func (*MU16) UnmarshalBinary([]byte) error  { return errors.New("not for the codec") }
func (MU16) MarshalText() ([]byte, error)   { return []byte("~"), nil }
func (*MU16) UnmarshalText([]byte) error    { return errors.New("not for the codec") }
func (MU16) MarshalJSON() ([]byte, error)   { return []byte("0"), nil }
func (*MU16) UnmarshalJSON([]byte) error    { return errors.New("not for the codec") }
func (*MU16) Reset()                        {}

func (m MU32) String() string               { return noise(m) }
func (m MU32) GoString() string             { return noise(m) }
func (m MU32) Error() string                { return noise(m) }
func (MU32) IsZero() bool                   { return true }
func (MU32) IsNil() bool                    { return true }
func (MU32) Len() int                       { return 99 }
func (MU32) Size() int                      { return 1 }
func (MU32) Less(i, j int) bool             { return i > j }
func (MU32) Bytes() []byte                  { return []byte{0xEE} }
func (MU32) MarshalBinary() ([]byte, error) { return []byte{0xEE}, nil }
func (*MU32) UnmarshalBinary([]byte) error  { return errors.New("not for the codec") }
func (MU32) MarshalText() ([]byte, error)   { return []byte("~"), nil }
func (*MU32) UnmarshalText([]byte) error    { return errors.New("not for the codec") }
func (MU32) MarshalJSON() ([]byte, error)   { return []byte("0"), nil }
func (*MU32) UnmarshalJSON([]byte) error    { return errors.New("not for the codec") }
func (*MU32) Reset()                        {}

func (m MU64) String() string               { return noise(m) }
func (m MU64) GoString() string             { return noise(m) }
func (m MU64) Error() string                { return noise(m) }
func (MU64) IsZero() bool                   { return true }
func (MU64) IsNil() bool                    { return true }
func (MU64) Len() int                       { return 99 }
func (MU64) Size() int                      { return 1 }
func (MU64) Less(i, j int) bool             { return i > j }
func (MU64) Bytes() []byte                  { return []byte{0xEE} }
func (MU64) MarshalBinary() ([]byte, error) { return []byte{0xEE}, nil }
func (*MU64) UnmarshalBinary([]byte) error  { return errors.New("not for the codec") }
func (MU64) MarshalText() ([]byte, error)   { return []byte("~"), nil }
func (*MU64) UnmarshalText([]byte) error    { return errors.New("not for the codec") }
func (MU64) MarshalJSON() ([]byte, error)   { return []byte("0"), nil }
func (*MU64) UnmarshalJSON([]byte) error    { return errors.New("not for the codec") }
func (*MU64) Reset()                        {}

func (m MI8) String() string               { return noise(m) }
func (m MI8) GoString() string             { return noise(m) }
func (m MI8) Error() string                { return noise(m) }
func (MI8) IsZero() bool                   { return true }
func (MI8) IsNil() bool                    { return true }
func (MI8) Len() int                       { return 99 }
func (MI8) Size() int                      { return 1 }
func (MI8) Less(i, j int) bool             { return i > j }
func (MI8) Bytes() []byte                  { return []byte{0xEE} }
func (MI8) MarshalBinary() ([]byte, error) { return []byte{0xEE}, nil }
func (*MI8) UnmarshalBinary([]byte) error  { return errors.New("not for the codec") }
func (MI8) MarshalText() ([]byte, error)   { return []byte("~"), nil }
func (*MI8) UnmarshalText([]byte) error    { return errors.New("not for the codec") }
func (MI8) MarshalJSON() ([]byte, error)   { return []byte("0"), nil }
func (*MI8) UnmarshalJSON([]byte) error    { return errors.New("not for the codec") }
func (*MI8) Reset()                        {}

func (m MI16) String() string               { return noise(m) }
func (m MI16) GoString() string             { return noise(m) }
func (m MI16) Error() string                { return noise(m) }
func (MI16) IsZero() bool                   { return true }
func (MI16) IsNil() bool                    { return true }
func (MI16) Len() int                       { return 99 }
func (MI16) Size() int                      { return 1 }
func (MI16) Less(i, j int) bool             { return i > j }
func (MI16) Bytes() []byte                  { return []byte{0xEE} }
func (MI16) MarshalBinary() ([]byte, error) { return []byte{0xEE}, nil }
func (*MI16) UnmarshalBinary([]byte) error  { return errors.New("not for the codec") }
func (MI16) MarshalText() ([]byte, error)   { return []byte("~"), nil }
func (*MI16) UnmarshalText([]byte) error    { return errors.New("not for the codec") }
func (MI16) MarshalJSON() ([]byte, error)   { return []byte("0"), nil }
func (*MI16) UnmarshalJSON([]byte) error    { return errors.New("not for the codec") }
func (*MI16) Reset()                        {}

func (m MI32) String() string               { return noise(m) }
func (m MI32) GoString() string             { return noise(m) }
func (m MI32) Error() string                { return noise(m) }
func (MI32) IsZero() bool                   { return true }
func (MI32) IsNil() bool                    { return true }
func (MI32) Len() int                       { return 99 }
func (MI32) Size() int                      { return 1 }
func (MI32) Less(i, j int) bool             { return i > j }
func (MI32) Bytes() []byte                  { return []byte{0xEE} }
func (MI32) MarshalBinary() ([]byte, error) { return []byte{0xEE}, nil }
func (*MI32) UnmarshalBinary([]byte) error  { return errors.New("not for the codec") }
func (MI32) MarshalText() ([]byte, error)   { return []byte("~"), nil }
func (*MI32) UnmarshalText([]byte) error    { return errors.New("not for the codec") }
func (MI32) MarshalJSON() ([]byte, error)   { return []byte("0"), nil }
func (*MI32) UnmarshalJSON([]byte) error    { return errors.New("not for the codec") }
func (*MI32) Reset()                        {}

func (m MI64) String() string               { return noise(m) }
func (m MI64) GoString() string             { return noise(m) }
func (m MI64) Error() string                { return noise(m) }
func (MI64) IsZero() bool                   { return true }
func (MI64) IsNil() bool                    { return true }
func (MI64) Len() int                       { return 99 }
func (MI64) Size() int                      { return 1 }
func (MI64) Less(i, j int) bool             { return i > j }
func (MI64) Bytes() []byte                  { return []byte{0xEE} }
func (MI64) MarshalBinary() ([]byte, error) { return []byte{0xEE}, nil }
func (*MI64) UnmarshalBinary([]byte) error  { return errors.New("not for the codec") }
func (MI64) MarshalText() ([]byte, error)   { return []byte("~"), nil }
func (*MI64) UnmarshalText([]byte) error    { return errors.New("not for the codec") }
func (MI64) MarshalJSON() ([]byte, error)   { return []byte("0"), nil }
func (*MI64) UnmarshalJSON([]byte) error    { return errors.New("not for the codec") }
func (*MI64) Reset()                        {}

func (m MF32) String() string               { return noise(m) }
func (m MF32) GoString() string             { return noise(m) }
func (m MF32) Error() string                { return noise(m) }
func (MF32) IsZero() bool                   { return true }
func (MF32) IsNil() bool                    { return true }
func (MF32) Len() int                       { return 99 }
func (MF32) Size() int                      { return 1 }
func (MF32) Less(i, j int) bool             { return i > j }
func (MF32) Bytes() []byte                  { return []byte{0xEE} }
func (MF32) MarshalBinary() ([]byte, error) { return []byte{0xEE}, nil }
func (*MF32) UnmarshalBinary([]byte) error  { return errors.New("not for the codec") }
func (MF32) MarshalText() ([]byte, error)   { return []byte("~"), nil }
func (*MF32) UnmarshalText([]byte) error    { return errors.New("not for the codec") }
func (MF32) MarshalJSON() ([]byte, error)   { return []byte("0"), nil }
func (*MF32) UnmarshalJSON([]byte) error    { return errors.New("not for the codec") }
func (*MF32) Reset()                        {}

func (m MF64) String() string               { return noise(m) }
func (m MF64) GoString() string             { return noise(m) }
func (m MF64) Error() string                { return noise(m) }
func (MF64) IsZero() bool                   { return true }
func (MF64) IsNil() bool                    { return true }
func (MF64) Len() int                       { return 99 }
func (MF64) Size() int                      { return 1 }
func (MF64) Less(i, j int) bool             { return i > j }
func (MF64) Bytes() []byte                  { return []byte{0xEE} }
func (MF64) MarshalBinary() ([]byte, error) { return []byte{0xEE}, nil }
func (*MF64) UnmarshalBinary([]byte) error  { return errors.New("not for the codec") }
func (MF64) MarshalText() ([]byte, error)   { return []byte("~"), nil }
func (*MF64) UnmarshalText([]byte) error    { return errors.New("not for the codec") }
func (MF64) MarshalJSON() ([]byte, error)   { return []byte("0"), nil }
func (*MF64) UnmarshalJSON([]byte) error    { return errors.New("not for the codec") }
func (*MF64) Reset()                        {}

func (m MStr) String() string               { return noise(m) }
func (m MStr) GoString() string             { return noise(m) }
func (m MStr) Error() string                { return noise(m) }
func (MStr) IsZero() bool                   { return true }
func (MStr) IsNil() bool                    { return true }
func (MStr) Len() int                       { return 99 }
func (MStr) Size() int                      { return 1 }
func (MStr) Less(i, j int) bool             { return i > j }
func (MStr) Bytes() []byte                  { return []byte{0xEE} }
func (MStr) MarshalBinary() ([]byte, error) { return []byte{0xEE}, nil }
func (*MStr) UnmarshalBinary([]byte) error  { return errors.New("not for the codec") }
func (MStr) MarshalText() ([]byte, error)   { return []byte("~"), nil }
func (*MStr) UnmarshalText([]byte) error    { return errors.New("not for the codec") }
func (MStr) MarshalJSON() ([]byte, error)   { return []byte("0"), nil }
func (*MStr) UnmarshalJSON([]byte) error    { return errors.New("not for the codec") }
func (*MStr) Reset()                        {}

func (m MBl) String() string               { return noise(m) }
func (m MBl) GoString() string             { return noise(m) }
func (m MBl) Error() string                { return noise(m) }
func (MBl) IsZero() bool                   { return true }
func (MBl) IsNil() bool                    { return true }
func (MBl) Len() int                       { return 99 }
func (MBl) Size() int                      { return 1 }
func (MBl) Less(i, j int) bool             { return i > j }
func (MBl) Bytes() []byte                  { return []byte{0xEE} }
func (MBl) MarshalBinary() ([]byte, error) { return []byte{0xEE}, nil }
func (*MBl) UnmarshalBinary([]byte) error  { return errors.New("not for the codec") }
func (MBl) MarshalText() ([]byte, error)   { return []byte("~"), nil }
func (*MBl) UnmarshalText([]byte) error    { return errors.New("not for the codec") }
func (MBl) MarshalJSON() ([]byte, error)   { return []byte("0"), nil }
func (*MBl) UnmarshalJSON([]byte) error    { return errors.New("not for the codec") }
func (*MBl) Reset()                        {}

func (m MSl) String() string               { return noise(m) }
func (m MSl) GoString() string             { return noise(m) }
func (m MSl) Error() string                { return noise(m) }
func (MSl) IsZero() bool                   { return true }
func (MSl) IsNil() bool                    { return true }
func (MSl) Len() int                       { return 99 }
func (MSl) Size() int                      { return 1 }
func (MSl) Less(i, j int) bool             { return i > j }
func (MSl) Bytes() []byte                  { return []byte{0xEE} }
func (MSl) MarshalBinary() ([]byte, error) { return []byte{0xEE}, nil }
func (*MSl) UnmarshalBinary([]byte) error  { return errors.New("not for the codec") }
func (MSl) MarshalText() ([]byte, error)   { return []byte("~"), nil }
func (*MSl) UnmarshalText([]byte) error    { return errors.New("not for the codec") }
func (MSl) MarshalJSON() ([]byte, error)   { return []byte("0"), nil }
func (*MSl) UnmarshalJSON([]byte) error    { return errors.New("not for the codec") }
func (*MSl) Reset()                        {}

func (m MLs) String() string               { return noise(m) }
func (m MLs) GoString() string             { return noise(m) }
func (m MLs) Error() string                { return noise(m) }
func (MLs) IsZero() bool                   { return true }
func (MLs) IsNil() bool                    { return true }
func (MLs) Len() int                       { return 99 }
func (MLs) Size() int                      { return 1 }
func (MLs) Less(i, j int) bool             { return i > j }
func (MLs) Bytes() []byte                  { return []byte{0xEE} }
func (MLs) MarshalBinary() ([]byte, error) { return []byte{0xEE}, nil }
func (*MLs) UnmarshalBinary([]byte) error  { return errors.New("not for the codec") }
func (MLs) MarshalText() ([]byte, error)   { return []byte("~"), nil }
func (*MLs) UnmarshalText([]byte) error    { return errors.New("not for the codec") }
func (MLs) MarshalJSON() ([]byte, error)   { return []byte("0"), nil }
func (*MLs) UnmarshalJSON([]byte) error    { return errors.New("not for the codec") }
func (*MLs) Reset()                        {}

func (m MArr) String() string               { return noise(m) }
func (m MArr) GoString() string             { return noise(m) }
func (m MArr) Error() string                { return noise(m) }
func (MArr) IsZero() bool                   { return true }
func (MArr) IsNil() bool                    { return true }
func (MArr) Len() int                       { return 99 }
func (MArr) Size() int                      { return 1 }
func (MArr) Less(i, j int) bool             { return i > j }
func (MArr) Bytes() []byte                  { return []byte{0xEE} }
func (MArr) MarshalBinary() ([]byte, error) { return []byte{0xEE}, nil }
func (*MArr) UnmarshalBinary([]byte) error  { return errors.New("not for the codec") }
func (MArr) MarshalText() ([]byte, error)   { return []byte("~"), nil }
func (*MArr) UnmarshalText([]byte) error    { return errors.New("not for the codec") }
func (MArr) MarshalJSON() ([]byte, error)   { return []byte("0"), nil }
func (*MArr) UnmarshalJSON([]byte) error    { return errors.New("not for the codec") }
func (*MArr) Reset()                        {}

func (m MMp) String() string               { return noise(m) }
func (m MMp) GoString() string             { return noise(m) }
func (m MMp) Error() string                { return noise(m) }
func (MMp) IsZero() bool                   { return true }
func (MMp) IsNil() bool                    { return true }
func (MMp) Len() int                       { return 99 }
func (MMp) Size() int                      { return 1 }
func (MMp) Less(i, j int) bool             { return i > j }
func (MMp) Bytes() []byte                  { return []byte{0xEE} }
func (MMp) MarshalBinary() ([]byte, error) { return []byte{0xEE}, nil }
func (*MMp) UnmarshalBinary([]byte) error  { return errors.New("not for the codec") }
func (MMp) MarshalText() ([]byte, error)   { return []byte("~"), nil }
func (*MMp) UnmarshalText([]byte) error    { return errors.New("not for the codec") }
func (MMp) MarshalJSON() ([]byte, error)   { return []byte("0"), nil }
func (*MMp) UnmarshalJSON([]byte) error    { return errors.New("not for the codec") }
func (*MMp) Reset()                        {}

func (m MIn) String() string               { return noise(m) }
func (m MIn) GoString() string             { return noise(m) }
func (m MIn) Error() string                { return noise(m) }
func (MIn) IsZero() bool                   { return true }
func (MIn) IsNil() bool                    { return true }
func (MIn) Len() int                       { return 99 }
func (MIn) Size() int                      { return 1 }
func (MIn) Less(i, j int) bool             { return i > j }
func (MIn) Bytes() []byte                  { return []byte{0xEE} }
func (MIn) MarshalBinary() ([]byte, error) { return []byte{0xEE}, nil }
func (*MIn) UnmarshalBinary([]byte) error  { return errors.New("not for the codec") }
func (MIn) MarshalText() ([]byte, error)   { return []byte("~"), nil }
func (*MIn) UnmarshalText([]byte) error    { return errors.New("not for the codec") }
func (MIn) MarshalJSON() ([]byte, error)   { return []byte("0"), nil }
func (*MIn) UnmarshalJSON([]byte) error    { return errors.New("not for the codec") }
func (*MIn) Reset()                        {}

// Noisy: such types in every role
type Noisy struct {
	A MU16 `bin:"big"`
	B MStr `bin:"optional"`
	C map[MStr]MU8
	D []MU16
	E [2]MI32
	F *MIn
	G MIn  `bin:"optional"`
	H MF64 `bin:"big"`
	I MSl
	J MLs   `bin:"option"`
	K *MArr `bin:"coption"`
	L MMp   `bin:"optional"`
	M map[MI16]MStr
	N MU8 `bin:"sizeof=O"`
	O []MU64
	P MBl `bin:"big optional"`
	Q []*MIn
	R MU32 `bin:"-"`
	S MI64 `bin:"coption"`
}

var noisyKinds = map[string]reflect.Type{
	"MU8":  reflect.TypeOf((*MU8)(nil)).Elem(),
	"MU16": reflect.TypeOf((*MU16)(nil)).Elem(),
	"MU32": reflect.TypeOf((*MU32)(nil)).Elem(),
	"MU64": reflect.TypeOf((*MU64)(nil)).Elem(),
	"MI8":  reflect.TypeOf((*MI8)(nil)).Elem(),
	"MI16": reflect.TypeOf((*MI16)(nil)).Elem(),
	"MI32": reflect.TypeOf((*MI32)(nil)).Elem(),
	"MI64": reflect.TypeOf((*MI64)(nil)).Elem(),
	"MF32": reflect.TypeOf((*MF32)(nil)).Elem(),
	"MF64": reflect.TypeOf((*MF64)(nil)).Elem(),
	"MStr": reflect.TypeOf((*MStr)(nil)).Elem(),
	"MBl":  reflect.TypeOf((*MBl)(nil)).Elem(),
	"MSl":  reflect.TypeOf((*MSl)(nil)).Elem(),
	"MLs":  reflect.TypeOf((*MLs)(nil)).Elem(),
	"MArr": reflect.TypeOf((*MArr)(nil)).Elem(),
	"MMp":  reflect.TypeOf((*MMp)(nil)).Elem(),
	"MIn":  reflect.TypeOf((*MIn)(nil)).Elem(),
}

// noise is a text that orders values otherwise than the codec does.
func noise(x interface{}) string {
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprintf("%020d", ^v.Uint())
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", ^uint64(v.Int())+1<<63)
	case reflect.String:
		b := []byte(v.String())
		for i := range b {
			b[i] = ^b[i]
		}
		return string(b) + "\xff"
	}
	return "~"
}
