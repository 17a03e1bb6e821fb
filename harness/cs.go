package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"sync/atomic"

	bin "github.com/gagliardetto/binary"
)

// Types with their own codec on every scalar kind: a marker byte, then the
// value in big-endian order (strings: a length byte and the bytes reversed).

func csPut(e *bin.Encoder, x uint64, w int) error {
	atomic.AddInt64(&encCalls, 1)
	var b [9]byte
	b[8-w] = 0xD5
	var n [8]byte
	binary.BigEndian.PutUint64(n[:], x)
	copy(b[9-w:], n[8-w:])
	return e.WriteBytes(b[8-w:], false)
}

func csGet(d *bin.Decoder, w int) (uint64, error) {
	atomic.AddInt64(&decCalls, 1)
	b, err := d.ReadNBytes(w + 1)
	if err != nil {
		return 0, err
	}
	if b[0] != 0xD5 {
		return 0, fmt.Errorf("marker is %x", b[0])
	}
	var n uint64
	for _, x := range b[1:] {
		n = n<<8 | uint64(x)
	}
	return n, nil
}

type CsU8 uint8

func (c CsU8) MarshalWithEncoder(e *bin.Encoder) error { return csPut(e, uint64(c), 1) }

func (c *CsU8) UnmarshalWithDecoder(d *bin.Decoder) error {
	n, err := csGet(d, 1)
	if err == nil {
		*c = CsU8(n)
	}
	return err
}

type CsU32 uint32

func (c CsU32) MarshalWithEncoder(e *bin.Encoder) error { return csPut(e, uint64(c), 4) }

func (c *CsU32) UnmarshalWithDecoder(d *bin.Decoder) error {
	n, err := csGet(d, 4)
	if err == nil {
		*c = CsU32(n)
	}
	return err
}

type CsU64 uint64

func (c CsU64) MarshalWithEncoder(e *bin.Encoder) error { return csPut(e, uint64(c), 8) }

func (c *CsU64) UnmarshalWithDecoder(d *bin.Decoder) error {
	n, err := csGet(d, 8)
	if err == nil {
		*c = CsU64(n)
	}
	return err
}

type CsI8 int8

func (c CsI8) MarshalWithEncoder(e *bin.Encoder) error { return csPut(e, uint64(c), 1) }

func (c *CsI8) UnmarshalWithDecoder(d *bin.Decoder) error {
	n, err := csGet(d, 1)
	if err == nil {
		*c = CsI8(n)
	}
	return err
}

type CsI16 int16

func (c CsI16) MarshalWithEncoder(e *bin.Encoder) error { return csPut(e, uint64(c), 2) }

func (c *CsI16) UnmarshalWithDecoder(d *bin.Decoder) error {
	n, err := csGet(d, 2)
	if err == nil {
		*c = CsI16(n)
	}
	return err
}

type CsI32 int32

func (c CsI32) MarshalWithEncoder(e *bin.Encoder) error { return csPut(e, uint64(c), 4) }

func (c *CsI32) UnmarshalWithDecoder(d *bin.Decoder) error {
	n, err := csGet(d, 4)
	if err == nil {
		*c = CsI32(n)
	}
	return err
}

type CsI64 int64

func (c CsI64) MarshalWithEncoder(e *bin.Encoder) error { return csPut(e, uint64(c), 8) }

func (c *CsI64) UnmarshalWithDecoder(d *bin.Decoder) error {
	n, err := csGet(d, 8)
	if err == nil {
		*c = CsI64(n)
	}
	return err
}

type CsF32 float32

func (c CsF32) MarshalWithEncoder(e *bin.Encoder) error {
	return csPut(e, uint64(math.Float32bits(float32(c))), 4)
}

func (c *CsF32) UnmarshalWithDecoder(d *bin.Decoder) error {
	n, err := csGet(d, 4)
	if err == nil {
		*c = CsF32(math.Float32frombits(uint32(n)))
	}
	return err
}

type CsF64 float64

func (c CsF64) MarshalWithEncoder(e *bin.Encoder) error {
	return csPut(e, math.Float64bits(float64(c)), 8)
}

func (c *CsF64) UnmarshalWithDecoder(d *bin.Decoder) error {
	n, err := csGet(d, 8)
	if err == nil {
		*c = CsF64(math.Float64frombits(n))
	}
	return err
}

type CsBl bool

func (c CsBl) MarshalWithEncoder(e *bin.Encoder) error {
	if c {
		return csPut(e, 90, 1)
	}
	return csPut(e, 165, 1)
}

func (c *CsBl) UnmarshalWithDecoder(d *bin.Decoder) error {
	n, err := csGet(d, 1)
	if err != nil {
		return err
	}
	if n != 90 && n != 165 {
		return errors.New("no boolean")
	}
	*c = n == 90
	return nil
}

type CsSt string

func (c CsSt) MarshalWithEncoder(e *bin.Encoder) error {
	if len(c) > 255 {
		return errors.New("too long")
	}
	if err := csPut(e, uint64(len(c)), 1); err != nil {
		return err
	}
	b := []byte(c)
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return e.WriteBytes(b, false)
}

func (c *CsSt) UnmarshalWithDecoder(d *bin.Decoder) error {
	n, err := csGet(d, 1)
	if err != nil {
		return err
	}
	b, err := d.ReadNBytes(int(n))
	if err != nil {
		return err
	}
	out := make([]byte, n)
	for i := range b {
		out[len(b)-1-i] = b[i]
	}
	*c = CsSt(out)
	return nil
}
