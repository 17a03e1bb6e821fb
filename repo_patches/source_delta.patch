From 47bc86bb1b257566870d95dd4fd75987f825a4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:59 +0000
Subject: [PATCH 01/25] fix: WriteUVarInt/WriteVarInt panic on values needing
 more than 8 varint bytes

---
 encoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index 37a7775..a8ebcee 100644
--- a/encoder.go
+++ b/encoder.go
@@ -152,7 +152,7 @@ func (e *Encoder) WriteUVarInt(v int) (err error) {
 		zlog.Debug("encode: write uvarint", zap.Int("val", v))
 	}
 
-	buf := make([]byte, 8)
+	buf := make([]byte, binary.MaxVarintLen64)
 	l := binary.PutUvarint(buf, uint64(v))
 	return e.toWriter(buf[:l])
 }
@@ -162,7 +162,7 @@ func (e *Encoder) WriteVarInt(v int) (err error) {
 		zlog.Debug("encode: write varint", zap.Int("val", v))
 	}
 
-	buf := make([]byte, 8)
+	buf := make([]byte, binary.MaxVarintLen64)
 	l := binary.PutVarint(buf, int64(v))
 	return e.toWriter(buf[:l])
 }
-- 
2.43.0


From 110b4933820c047d94ae6f433a2c1679857cc255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:01 +0000
Subject: [PATCH 02/25] fix: report out-of-range compact-u16 lengths instead of
 silently writing no prefix

---
 encoder.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index a8ebcee..06e6758 100644
--- a/encoder.go
+++ b/encoder.go
@@ -137,7 +137,9 @@ func (e *Encoder) WriteLength(length int) error {
 		}
 	case EncodingCompactU16:
 		var buf []byte
-		EncodeCompactU16Length(&buf, length)
+		if err := EncodeCompactU16Length(&buf, length); err != nil {
+			return err
+		}
 		if err := e.WriteBytes(buf, false); err != nil {
 			return err
 		}
@@ -353,7 +355,9 @@ func (e *Encoder) WriteCompactU16(ln int) (err error) {
 		zlog.Debug("encode: write compact-u16", zap.Int("val", ln))
 	}
 	buf := make([]byte, 0)
-	EncodeCompactU16Length(&buf, ln)
+	if err := EncodeCompactU16Length(&buf, ln); err != nil {
+		return err
+	}
 	return e.toWriter(buf)
 }
 
-- 
2.43.0


From e7aa9a19d5ffaf7413c4a8c82f6e3fc0a0229196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:02 +0000
Subject: [PATCH 03/25] fix: SetPosition accepts indexes above MaxInt64 and
 makes the position negative

---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index c843348..5a974e0 100644
--- a/decoder.go
+++ b/decoder.go
@@ -660,7 +660,7 @@ func (dec *Decoder) SkipBytes(count uint) error {
 }
 
 func (dec *Decoder) SetPosition(idx uint) error {
-	if int(idx) < len(dec.data) {
+	if idx < uint(len(dec.data)) {
 		dec.pos = int(idx)
 		return nil
 	}
-- 
2.43.0


From 676eb44fb94804c01a97fe29b0cb269423fe2c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:03 +0000
Subject: [PATCH 04/25] fix: Decode panics on a nil pointer instead of
 returning InvalidDecoderError

---
 decoder_bin.go         | 2 +-
 decoder_borsh.go       | 2 +-
 decoder_compact-u16.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoder_bin.go b/decoder_bin.go
index ca58676..4e500ed 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -28,7 +28,7 @@ import (
 
 func (dec *Decoder) decodeWithOptionBin(v interface{}, option *option) (err error) {
 	rv := reflect.ValueOf(v)
-	if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return &InvalidDecoderError{reflect.TypeOf(v)}
 	}
 
diff --git a/decoder_borsh.go b/decoder_borsh.go
index bcac383..e900bca 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -28,7 +28,7 @@ import (
 
 func (dec *Decoder) decodeWithOptionBorsh(v interface{}, option *option) (err error) {
 	rv := reflect.ValueOf(v)
-	if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return &InvalidDecoderError{reflect.TypeOf(v)}
 	}
 
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 13396dd..7801bde 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -27,7 +27,7 @@ import (
 
 func (dec *Decoder) decodeWithOptionCompactU16(v interface{}, option *option) (err error) {
 	rv := reflect.ValueOf(v)
-	if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return &InvalidDecoderError{reflect.TypeOf(v)}
 	}
 
-- 
2.43.0


From 3287a5117d65135e43053f723cd4208d8ac7afd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:05 +0000
Subject: [PATCH 05/25] fix: panic on a sizeof count that is negative or
 exceeds the slice

---
 decoder_bin.go         | 2 +-
 decoder_borsh.go       | 2 +-
 decoder_compact-u16.go | 2 +-
 encoder_bin.go         | 3 +++
 encoder_borsh.go       | 3 +++
 encoder_compact-u16.go | 3 +++
 6 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/decoder_bin.go b/decoder_bin.go
index 4e500ed..910a04e 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -189,7 +189,7 @@ func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
 			zlog.Debug("reading slice", zap.Int("len", l), typeField("type", rv))
 		}
 
-		if l > dec.Remaining() {
+		if l < 0 || l > dec.Remaining() {
 			return io.ErrUnexpectedEOF
 		}
 
diff --git a/decoder_borsh.go b/decoder_borsh.go
index e900bca..d51a555 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -228,7 +228,7 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 			// Empty slices are left nil
 			return
 		}
-		if l > dec.Remaining() {
+		if l < 0 || l > dec.Remaining() {
 			return io.ErrUnexpectedEOF
 		}
 
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 7801bde..9f6f67b 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -188,7 +188,7 @@ func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error)
 			zlog.Debug("reading slice", zap.Int("len", l), typeField("type", rv))
 		}
 
-		if l > dec.Remaining() {
+		if l < 0 || l > dec.Remaining() {
 			return io.ErrUnexpectedEOF
 		}
 
diff --git a/encoder_bin.go b/encoder_bin.go
index 4ba95ec..0046eef 100644
--- a/encoder_bin.go
+++ b/encoder_bin.go
@@ -125,6 +125,9 @@ func (e *Encoder) encodeBin(rv reflect.Value, opt *option) (err error) {
 		var l int
 		if opt.hasSizeOfSlice() {
 			l = opt.getSizeOfSlice()
+			if l < 0 || l > rv.Len() {
+				return fmt.Errorf("encode: sizeof is %d, but the slice has %d elements", l, rv.Len())
+			}
 			if traceEnabled {
 				zlog.Debug("encode: slice with sizeof set", zap.Int("size_of", l))
 			}
diff --git a/encoder_borsh.go b/encoder_borsh.go
index c1cc611..894fb8c 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -170,6 +170,9 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 		var l int
 		if opt.hasSizeOfSlice() {
 			l = opt.getSizeOfSlice()
+			if l < 0 || l > rv.Len() {
+				return fmt.Errorf("encode: sizeof is %d, but the slice has %d elements", l, rv.Len())
+			}
 			if traceEnabled {
 				zlog.Debug("encode: slice with sizeof set", zap.Int("size_of", l))
 			}
diff --git a/encoder_compact-u16.go b/encoder_compact-u16.go
index 2616177..092beb0 100644
--- a/encoder_compact-u16.go
+++ b/encoder_compact-u16.go
@@ -123,6 +123,9 @@ func (e *Encoder) encodeCompactU16(rv reflect.Value, opt *option) (err error) {
 		var l int
 		if opt.hasSizeOfSlice() {
 			l = opt.getSizeOfSlice()
+			if l < 0 || l > rv.Len() {
+				return fmt.Errorf("encode: sizeof is %d, but the slice has %d elements", l, rv.Len())
+			}
 			if traceEnabled {
 				zlog.Debug("encode: slice with sizeof set", zap.Int("size_of", l))
 			}
-- 
2.43.0


From 7c1976b2446b3c3f2aa22409c6ca8009d5149851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:06 +0000
Subject: [PATCH 06/25] fix: borsh enum encoder drops slice, array and map
 variants and bypasses custom marshalers

---
 encoder_borsh.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/encoder_borsh.go b/encoder_borsh.go
index 894fb8c..9438d47 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -265,15 +265,7 @@ func (enc *Encoder) encodeComplexEnumBorsh(rv reflect.Value) error {
 	if field.Kind() == reflect.Ptr {
 		field = field.Elem()
 	}
-	if field.Kind() == reflect.Struct {
-		return enc.encodeStructBorsh(field.Type(), field)
-	}
-	// Encode the value if it's a primitive type
-	isPrimitive, err := enc.encodePrimitive(field, nil)
-	if isPrimitive {
-		return err
-	}
-	return nil
+	return enc.encodeBorsh(field, nil)
 }
 
 type BorshEnum uint8
-- 
2.43.0


From 834875c66351856c9aae150566e4bb609fb6144e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:08 +0000
Subject: [PATCH 07/25] fix: borsh struct decoder ignores option, order and
 sizeof tags of fields with custom unmarshalers

---
 decoder_borsh.go | 26 --------------------------
 1 file changed, 26 deletions(-)

diff --git a/decoder_borsh.go b/decoder_borsh.go
index d51a555..8eb9653 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -408,32 +408,6 @@ func (dec *Decoder) decodeStructBorsh(rt reflect.Type, rv reflect.Value) (err er
 			)
 		}
 
-		rt := v.Type()
-		ptrImplements := reflect.PtrTo(rt).Implements(unmarshalableType)
-		vImplements := rt.Implements(unmarshalableType)
-		if ptrImplements || vImplements {
-			switch {
-			case ptrImplements:
-				m := reflect.New(rt)
-				val := m.Interface()
-				err := val.(BinaryUnmarshaler).UnmarshalWithDecoder(dec)
-				if err != nil {
-					return err
-				}
-				v.Set(reflect.ValueOf(val).Elem())
-				continue
-			case vImplements:
-				m := reflect.New(rt.Elem())
-				val := m.Interface()
-				err := val.(BinaryUnmarshaler).UnmarshalWithDecoder(dec)
-				if err != nil {
-					return err
-				}
-				v.Set(reflect.ValueOf(val))
-				continue
-			}
-		}
-
 		if err = dec.decodeBorsh(v, option); err != nil {
 			return fmt.Errorf("error while decoding %q field: %w", structField.Name, err)
 		}
-- 
2.43.0


From 863d2eb2c7e224467ab35aa70e6f17cd5eba41ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:40 +0000
Subject: [PATCH 08/25] fix: borsh enum encoder writes no payload for a nil
 pointer variant

---
 encoder_borsh.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/encoder_borsh.go b/encoder_borsh.go
index 9438d47..81e584f 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -260,12 +260,7 @@ func (enc *Encoder) encodeComplexEnumBorsh(rv reflect.Value) error {
 	if int(enum)+1 >= t.NumField() {
 		return errors.New("complex enum too large")
 	}
-	// Enum is empty
-	field := rv.Field(int(enum) + 1)
-	if field.Kind() == reflect.Ptr {
-		field = field.Elem()
-	}
-	return enc.encodeBorsh(field, nil)
+	return enc.encodeBorsh(rv.Field(int(enum)+1), nil)
 }
 
 type BorshEnum uint8
-- 
2.43.0


From 752310787139c626563b25f42436023b3ff54fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:41 +0000
Subject: [PATCH 09/25] fix: decoding an optional field with a custom
 unmarshaler panics when it is not a pointer

---
 decoder_bin.go         | 5 ++++-
 decoder_borsh.go       | 5 ++++-
 decoder_compact-u16.go | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/decoder_bin.go b/decoder_bin.go
index 910a04e..555483e 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -47,7 +47,10 @@ func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
 	}
 	dec.currentFieldOpt = opt
 
-	unmarshaler, rv := indirect(rv, opt.is_Optional())
+	var unmarshaler BinaryUnmarshaler
+	if !opt.is_Optional() {
+		unmarshaler, rv = indirect(rv, false)
+	}
 
 	if traceEnabled {
 		zlog.Debug("decode: type",
diff --git a/decoder_borsh.go b/decoder_borsh.go
index 8eb9653..d566e0c 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -47,7 +47,10 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 	}
 	dec.currentFieldOpt = opt
 
-	unmarshaler, rv := indirect(rv, opt.is_Optional() || opt.is_COptional())
+	var unmarshaler BinaryUnmarshaler
+	if !opt.is_Optional() && !opt.is_COptional() {
+		unmarshaler, rv = indirect(rv, false)
+	}
 
 	if traceEnabled {
 		zlog.Debug("decode: type",
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 9f6f67b..8b66a6a 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -46,7 +46,10 @@ func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error)
 	}
 	dec.currentFieldOpt = opt
 
-	unmarshaler, rv := indirect(rv, opt.is_Optional())
+	var unmarshaler BinaryUnmarshaler
+	if !opt.is_Optional() {
+		unmarshaler, rv = indirect(rv, false)
+	}
 
 	if traceEnabled {
 		zlog.Debug("decode: type",
-- 
2.43.0


From 17317dc9e8ec4379231c1a65af63b4be4d8843d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:43 +0000
Subject: [PATCH 10/25] fix: decoding an empty slice or map leaves the previous
 content of the destination in place

---
 decoder_bin.go         | 1 +
 decoder_borsh.go       | 2 ++
 decoder_compact-u16.go | 1 +
 3 files changed, 4 insertions(+)

diff --git a/decoder_bin.go b/decoder_bin.go
index 555483e..c55bb45 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -227,6 +227,7 @@ func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
 		}
 		if l == 0 {
 			// If the map has no content, keep it nil.
+			rv.Set(reflect.Zero(rt))
 			return nil
 		}
 		rv.Set(reflect.MakeMap(rt))
diff --git a/decoder_borsh.go b/decoder_borsh.go
index d566e0c..0aab8ae 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -229,6 +229,7 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 
 		if l == 0 {
 			// Empty slices are left nil
+			rv.Set(reflect.Zero(rt))
 			return
 		}
 		if l < 0 || l > dec.Remaining() {
@@ -266,6 +267,7 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 		}
 		if l == 0 {
 			// If the map has no content, keep it nil.
+			rv.Set(reflect.Zero(rt))
 			return nil
 		}
 		rv.Set(reflect.MakeMap(rt))
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 8b66a6a..37307ba 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -226,6 +226,7 @@ func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error)
 		}
 		if l == 0 {
 			// If the map has no content, keep it nil.
+			rv.Set(reflect.Zero(rt))
 			return nil
 		}
 		rv.Set(reflect.MakeMap(rt))
-- 
2.43.0


From bf95ff0349ce6b2618e03911e030ed31a87b560e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:44 +0000
Subject: [PATCH 11/25] fix: borsh encoder panics on maps keyed by a named
 int64 or uint64 type

---
 encoder_borsh.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/encoder_borsh.go b/encoder_borsh.go
index 81e584f..7a73cd2 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -367,14 +367,10 @@ func vComp(keys []reflect.Value) func(int, int) bool {
 			b = b.Elem()
 		}
 		switch a.Kind() {
-		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32:
+		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 			return a.Int() < b.Int()
-		case reflect.Int64:
-			return a.Interface().(int64) < b.Interface().(int64)
-		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32:
+		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			return a.Uint() < b.Uint()
-		case reflect.Uint64:
-			return a.Interface().(uint64) < b.Interface().(uint64)
 		case reflect.Float32, reflect.Float64:
 			return a.Float() < b.Float()
 		case reflect.String:
-- 
2.43.0


From a2c7bbe2b5bc1b7da70ef637ce0ec49c7b5f3770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:45 +0000
Subject: [PATCH 12/25] fix: Uint128 JSON decoding panics on overflow, drops
 the sign and mishandles big endian receivers

---
 u128.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/u128.go b/u128.go
index 7ea82d9..44c15f1 100644
--- a/u128.go
+++ b/u128.go
@@ -125,12 +125,14 @@ func (i *Uint128) unmarshalJSON_decimal(s string) error {
 	if !ok {
 		return fmt.Errorf("could not parse %q", s)
 	}
+	if parsed.Sign() < 0 || parsed.BitLen() > 128 {
+		return fmt.Errorf("%q is out of range for uint128", s)
+	}
 	oo := parsed.FillBytes(make([]byte, 16))
-	ReverseBytes(oo)
 
 	dec := NewBinDecoder(oo)
 
-	out, err := dec.ReadUint128(i.getByteOrder())
+	out, err := dec.ReadUint128(binary.BigEndian)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 037578ff1d2b3027764ce284605af4be3efe23bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:28 +0000
Subject: [PATCH 13/25] fix: Uint128 JSON decoding of 0x-prefixed strings
 panics

---
 u128.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/u128.go b/u128.go
index 44c15f1..d827099 100644
--- a/u128.go
+++ b/u128.go
@@ -144,8 +144,8 @@ func (i *Uint128) unmarshalJSON_decimal(s string) error {
 
 func (i *Uint128) unmarshalJSON_hex(s string) error {
 	truncatedVal := s[2:]
-	if len(truncatedVal) != 16 {
-		return fmt.Errorf("uint128 expects 16 characters after 0x, had %v", len(truncatedVal))
+	if len(truncatedVal) != 32 {
+		return fmt.Errorf("uint128 expects 32 characters after 0x, had %v", len(truncatedVal))
 	}
 
 	data, err := hex.DecodeString(truncatedVal)
-- 
2.43.0


From 2c4058992eb9ac7ea1a9b60ebf35a9e835eea09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:29 +0000
Subject: [PATCH 14/25] fix: Int64, Uint64 and JSONFloat64 panic when marshaled
 with a fresh encoder or decoder

---
 decoder.go |  8 ++++++++
 encoder.go |  8 ++++++++
 types.go   | 12 ++++++------
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/decoder.go b/decoder.go
index 5a974e0..53d725d 100644
--- a/decoder.go
+++ b/decoder.go
@@ -85,6 +85,14 @@ func (dec *Decoder) Reset(data []byte) {
 	dec.currentFieldOpt = nil
 }
 
+// fieldOrder returns the byte order of the field being decoded.
+func (dec *Decoder) fieldOrder() binary.ByteOrder {
+	if dec.currentFieldOpt == nil {
+		return defaultByteOrder
+	}
+	return dec.currentFieldOpt.Order
+}
+
 func (dec *Decoder) IsBorsh() bool {
 	return dec.encoding.IsBorsh()
 }
diff --git a/encoder.go b/encoder.go
index 06e6758..8208086 100644
--- a/encoder.go
+++ b/encoder.go
@@ -37,6 +37,14 @@ type Encoder struct {
 	output io.Writer
 }
 
+// fieldOrder returns the byte order of the field being encoded.
+func (enc *Encoder) fieldOrder() binary.ByteOrder {
+	if enc.currentFieldOpt == nil {
+		return defaultByteOrder
+	}
+	return enc.currentFieldOpt.Order
+}
+
 func (enc *Encoder) IsBorsh() bool {
 	return enc.encoding.IsBorsh()
 }
diff --git a/types.go b/types.go
index db56ba3..b476d8f 100644
--- a/types.go
+++ b/types.go
@@ -207,7 +207,7 @@ func (f *JSONFloat64) UnmarshalJSON(data []byte) error {
 }
 
 func (f *JSONFloat64) UnmarshalWithDecoder(dec *Decoder) error {
-	value, err := dec.ReadFloat64(dec.currentFieldOpt.Order)
+	value, err := dec.ReadFloat64(dec.fieldOrder())
 	if err != nil {
 		return err
 	}
@@ -217,7 +217,7 @@ func (f *JSONFloat64) UnmarshalWithDecoder(dec *Decoder) error {
 }
 
 func (f JSONFloat64) MarshalWithEncoder(enc *Encoder) error {
-	return enc.WriteFloat64(float64(f), enc.currentFieldOpt.Order)
+	return enc.WriteFloat64(float64(f), enc.fieldOrder())
 }
 
 type Int64 int64
@@ -267,7 +267,7 @@ func (i *Int64) UnmarshalJSON(data []byte) error {
 }
 
 func (i *Int64) UnmarshalWithDecoder(dec *Decoder) error {
-	value, err := dec.ReadInt64(dec.currentFieldOpt.Order)
+	value, err := dec.ReadInt64(dec.fieldOrder())
 	if err != nil {
 		return err
 	}
@@ -277,7 +277,7 @@ func (i *Int64) UnmarshalWithDecoder(dec *Decoder) error {
 }
 
 func (i Int64) MarshalWithEncoder(enc *Encoder) error {
-	return enc.WriteInt64(int64(i), enc.currentFieldOpt.Order)
+	return enc.WriteInt64(int64(i), enc.fieldOrder())
 }
 
 type Uint64 uint64
@@ -327,7 +327,7 @@ func (i *Uint64) UnmarshalJSON(data []byte) error {
 }
 
 func (i *Uint64) UnmarshalWithDecoder(dec *Decoder) error {
-	value, err := dec.ReadUint64(dec.currentFieldOpt.Order)
+	value, err := dec.ReadUint64(dec.fieldOrder())
 	if err != nil {
 		return err
 	}
@@ -337,5 +337,5 @@ func (i *Uint64) UnmarshalWithDecoder(dec *Decoder) error {
 }
 
 func (i Uint64) MarshalWithEncoder(enc *Encoder) error {
-	return enc.WriteUint64(uint64(i), enc.currentFieldOpt.Order)
+	return enc.WriteUint64(uint64(i), enc.fieldOrder())
 }
-- 
2.43.0


From 3852044f5e258343ad3354a157257231c57a515f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:31 +0000
Subject: [PATCH 15/25] fix: case conversion cuts multi-byte characters because
 it slices bytes by rune index

---
 heck.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/heck.go b/heck.go
index 5053c1e..2886702 100644
--- a/heck.go
+++ b/heck.go
@@ -166,8 +166,9 @@ func ToSnakeForSighash(s string) string {
 }
 
 type reader struct {
-	runes []rune
-	index int
+	runes   []rune
+	offsets []int // byte offset of each rune
+	index   int
 }
 
 func splitStringByRune(s string) []rune {
@@ -189,14 +190,18 @@ func iterateStringAsRunes(s string, callback func(r rune) bool) {
 }
 
 func newReader(s string) *reader {
-	return &reader{
+	r := &reader{
 		runes: splitStringByRune(s),
 		index: -1,
 	}
+	for offset := range s {
+		r.offsets = append(r.offsets, offset)
+	}
+	return r
 }
 
 func (r reader) This() (int, rune) {
-	return r.index, r.runes[r.index]
+	return r.offsets[r.index], r.runes[r.index]
 }
 
 func (r reader) HasNext() bool {
@@ -206,14 +211,14 @@ func (r reader) HasNext() bool {
 func (r *reader) Next() (int, rune) {
 	if r.HasNext() {
 		r.index++
-		return r.index, r.runes[r.index]
+		return r.offsets[r.index], r.runes[r.index]
 	}
 	return -1, rune(0)
 }
 
 func (r reader) Peek() (int, rune) {
 	if r.HasNext() {
-		return r.index + 1, r.runes[r.index+1]
+		return r.offsets[r.index+1], r.runes[r.index+1]
 	}
 	return -1, rune(0)
 }
-- 
2.43.0


From f83c9511d6651cf1631e8389149393dd5332d35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:32 +0000
Subject: [PATCH 16/25] fix: Written counts bytes the underlying writer did not
 accept

---
 encoder.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/encoder.go b/encoder.go
index 8208086..961ca34 100644
--- a/encoder.go
+++ b/encoder.go
@@ -94,11 +94,7 @@ func (e *Encoder) Encode(v interface{}) (err error) {
 }
 
 func (e *Encoder) toWriter(bytes []byte) (err error) {
-	e.count += len(bytes)
-	if traceEnabled {
-		zlog.Debug("	> encode: appending", zap.Stringer("hex", HexBytes(bytes)), zap.Int("pos", e.count))
-	}
-	_, err = e.output.Write(bytes)
+	_, err = e.Write(bytes)
 	return
 }
 
@@ -123,11 +119,12 @@ func (e *Encoder) WriteBytes(b []byte, writeLength bool) error {
 }
 
 func (e *Encoder) Write(b []byte) (n int, err error) {
-	e.count += len(b)
+	n, err = e.output.Write(b)
+	e.count += n
 	if traceEnabled {
 		zlog.Debug("	> encode: appending", zap.Stringer("hex", HexBytes(b)), zap.Int("pos", e.count))
 	}
-	return e.output.Write(b)
+	return n, err
 }
 
 func (e *Encoder) WriteLength(length int) error {
-- 
2.43.0


From 170bbd96fddf4ff5bf35a143414290c1c04d640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:34 +0000
Subject: [PATCH 17/25] fix: WriteByWrite keeps the slice passed to Write,
 which the caller may reuse

---
 tools.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools.go b/tools.go
index 9c7c8b3..07a19bd 100644
--- a/tools.go
+++ b/tools.go
@@ -50,7 +50,7 @@ func NewWriteByWrite(name string) *WriteByWrite {
 }
 
 func (rec *WriteByWrite) Write(b []byte) (int, error) {
-	rec.writes = append(rec.writes, b)
+	rec.writes = append(rec.writes, append([]byte(nil), b...))
 	return len(b), nil
 }
 
-- 
2.43.0


From 97ae2e6f56fdd790110ae00d0528daf354b1b65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:36 +0000
Subject: [PATCH 18/25] fix: 16 and 32 bit varint reads silently truncate
 larger values

---
 decoder.go | 12 ++++++++++++
 types.go   |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 53d725d..04744d3 100644
--- a/decoder.go
+++ b/decoder.go
@@ -194,6 +194,9 @@ func (dec *Decoder) ReadVarint32() (out int32, err error) {
 		return out, err
 	}
 	out = int32(n)
+	if int64(out) != n {
+		return 0, fmt.Errorf("varint: value %d overflows int32", n)
+	}
 	if traceEnabled {
 		zlog.Debug("decode: read varint32", zap.Int32("val", out))
 	}
@@ -206,6 +209,9 @@ func (dec *Decoder) ReadUvarint32() (out uint32, err error) {
 		return out, err
 	}
 	out = uint32(n)
+	if uint64(out) != n {
+		return 0, fmt.Errorf("varint: value %d overflows uint32", n)
+	}
 	if traceEnabled {
 		zlog.Debug("decode: read uvarint32", zap.Uint32("val", out))
 	}
@@ -218,6 +224,9 @@ func (dec *Decoder) ReadVarint16() (out int16, err error) {
 		return out, err
 	}
 	out = int16(n)
+	if int64(out) != n {
+		return 0, fmt.Errorf("varint: value %d overflows int16", n)
+	}
 	if traceEnabled {
 		zlog.Debug("decode: read varint16", zap.Int16("val", out))
 	}
@@ -230,6 +239,9 @@ func (dec *Decoder) ReadUvarint16() (out uint16, err error) {
 		return out, err
 	}
 	out = uint16(n)
+	if uint64(out) != n {
+		return 0, fmt.Errorf("varint: value %d overflows uint16", n)
+	}
 	if traceEnabled {
 		zlog.Debug("decode: read uvarint16", zap.Uint16("val", out))
 	}
diff --git a/types.go b/types.go
index b476d8f..20c8c22 100644
--- a/types.go
+++ b/types.go
@@ -144,7 +144,7 @@ func (o Varuint16) MarshalWithEncoder(encoder *Encoder) error {
 type Varuint32 uint32
 
 func (o *Varuint32) UnmarshalWithDecoder(decoder *Decoder) error {
-	value, err := decoder.ReadUvarint64()
+	value, err := decoder.ReadUvarint32()
 	if err != nil {
 		return fmt.Errorf("varuint32: %s", err)
 	}
-- 
2.43.0


From 6d03bdb9480bd77fb3d20d0d6ffae89e29b5f322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:15 +0000
Subject: [PATCH 19/25] fix: borsh encoder drops the sizeof and byte order
 options of a pointer field

---
 encoder_borsh.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoder_borsh.go b/encoder_borsh.go
index 7a73cd2..259ea98 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -131,9 +131,9 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 	case reflect.Ptr:
 		if rv.IsNil() {
 			el := reflect.New(rv.Type().Elem()).Elem()
-			return e.encodeBorsh(el, nil)
+			return e.encodeBorsh(el, opt)
 		} else {
-			return e.encodeBorsh(rv.Elem(), nil)
+			return e.encodeBorsh(rv.Elem(), opt)
 		}
 	case reflect.Interface:
 		// skip
-- 
2.43.0


From c2b5de1db1a96433c2e125ca97b60f78446e7a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:59 +0000
Subject: [PATCH 20/25] fix: field options of an encoded or decoded value leak
 into the next one

---
 decoder.go | 2 ++
 encoder.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/decoder.go b/decoder.go
index 04744d3..976c298 100644
--- a/decoder.go
+++ b/decoder.go
@@ -133,6 +133,8 @@ func NewCompactU16Decoder(data []byte) *Decoder {
 }
 
 func (dec *Decoder) Decode(v interface{}) (err error) {
+	// The options of the fields of v must not leak into what is decoded next.
+	defer func(prev *option) { dec.currentFieldOpt = prev }(dec.currentFieldOpt)
 	switch dec.encoding {
 	case EncodingBin:
 		return dec.decodeWithOptionBin(v, nil)
diff --git a/encoder.go b/encoder.go
index 961ca34..501870f 100644
--- a/encoder.go
+++ b/encoder.go
@@ -81,6 +81,8 @@ func NewCompactU16Encoder(writer io.Writer) *Encoder {
 }
 
 func (e *Encoder) Encode(v interface{}) (err error) {
+	// The options of the fields of v must not leak into what is encoded next.
+	defer func(prev *option) { e.currentFieldOpt = prev }(e.currentFieldOpt)
 	switch e.encoding {
 	case EncodingBin:
 		return e.encodeBin(reflect.ValueOf(v), nil)
-- 
2.43.0


From d8a0fa2c062bac71328beb9decdab830af1ef64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:21 +0000
Subject: [PATCH 21/25] fix: Encoder.Write reports success when the writer
 accepted fewer bytes without an error

---
 encoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoder.go b/encoder.go
index 501870f..005bbcf 100644
--- a/encoder.go
+++ b/encoder.go
@@ -123,6 +123,9 @@ func (e *Encoder) WriteBytes(b []byte, writeLength bool) error {
 func (e *Encoder) Write(b []byte) (n int, err error) {
 	n, err = e.output.Write(b)
 	e.count += n
+	if err == nil && n < len(b) {
+		err = io.ErrShortWrite
+	}
 	if traceEnabled {
 		zlog.Debug("	> encode: appending", zap.Stringer("hex", HexBytes(b)), zap.Int("pos", e.count))
 	}
-- 
2.43.0


From 59d7b097a894fa9bd3d924ea8342563737f48487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:58 +0000
Subject: [PATCH 22/25] fix: borsh decoder panics on a field tagged both
 optional and coption whose type has its own decoder

---
 decoder_borsh.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/decoder_borsh.go b/decoder_borsh.go
index 0aab8ae..86ea05c 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -75,9 +75,6 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 			rv.Set(reflect.Zero(rv.Type()))
 			return
 		}
-
-		// we have ptr here we should not go get the element
-		unmarshaler, rv = indirect(rv, false)
 	}
 	if opt.is_COptional() {
 		isPresent, e := dec.ReadCOption()
@@ -94,7 +91,8 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 			rv.Set(reflect.Zero(rv.Type()))
 			return
 		}
-
+	}
+	if opt.is_Optional() || opt.is_COptional() {
 		// we have ptr here we should not go get the element
 		unmarshaler, rv = indirect(rv, false)
 	}
-- 
2.43.0


From 7171297016aaec227808324eb5e7908be2bbf1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:03 +0000
Subject: [PATCH 23/25] fix: an error deep inside nested data no longer builds
 a message per level (quadratic memory)

---
 decoder_bin.go         |  2 +-
 decoder_borsh.go       |  2 +-
 decoder_compact-u16.go |  2 +-
 error.go               | 33 ++++++++++++++++++++++++++++++++-
 4 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/decoder_bin.go b/decoder_bin.go
index c55bb45..02f0921 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -338,7 +338,7 @@ func (dec *Decoder) decodeStructBin(rt reflect.Type, rv reflect.Value) (err erro
 		}
 
 		if err = dec.decodeBin(v, option); err != nil {
-			return fmt.Errorf("error while decoding %q field: %w", structField.Name, err)
+			return &fieldError{field: structField.Name, err: err}
 		}
 
 		if fieldTag.SizeOf != "" {
diff --git a/decoder_borsh.go b/decoder_borsh.go
index 86ea05c..2ec0cef 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -412,7 +412,7 @@ func (dec *Decoder) decodeStructBorsh(rt reflect.Type, rv reflect.Value) (err er
 		}
 
 		if err = dec.decodeBorsh(v, option); err != nil {
-			return fmt.Errorf("error while decoding %q field: %w", structField.Name, err)
+			return &fieldError{field: structField.Name, err: err}
 		}
 
 		if fieldTag.SizeOf != "" {
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 37307ba..8cef84b 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -337,7 +337,7 @@ func (dec *Decoder) decodeStructCompactU16(rt reflect.Type, rv reflect.Value) (e
 		}
 
 		if err = dec.decodeCompactU16(v, option); err != nil {
-			return fmt.Errorf("error while decoding %q field: %w", structField.Name, err)
+			return &fieldError{field: structField.Name, err: err}
 		}
 
 		if fieldTag.SizeOf != "" {
diff --git a/error.go b/error.go
index 40e448e..5cfe8ea 100644
--- a/error.go
+++ b/error.go
@@ -14,7 +14,38 @@
 
 package bin
 
-import "reflect"
+import (
+	"reflect"
+	"strconv"
+	"strings"
+)
+
+// fieldError names the struct field in which decoding failed. The message is
+// put together only when it is asked for: nested data would otherwise cost a
+// copy of it for every level.
+type fieldError struct {
+	field string
+	err   error
+}
+
+func (e *fieldError) Error() string {
+	var b strings.Builder
+	for {
+		b.WriteString("error while decoding ")
+		b.WriteString(strconv.Quote(e.field))
+		b.WriteString(" field: ")
+		inner, ok := e.err.(*fieldError)
+		if !ok {
+			b.WriteString(e.err.Error())
+			return b.String()
+		}
+		e = inner
+	}
+}
+
+func (e *fieldError) Unwrap() error {
+	return e.err
+}
 
 // An InvalidDecoderError describes an invalid argument passed to Decoder.
 // (The argument to Decoder must be a non-nil pointer.)
-- 
2.43.0


From 525fc13be7b6aa11df7fb716ac990f261dad7253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:05 +0000
Subject: [PATCH 24/25] fix: limit the nesting depth of decoded values, deep
 data for a recursive type overflowed the stack

---
 decoder.go             | 19 +++++++++++++++++++
 decoder_bin.go         |  5 +++++
 decoder_borsh.go       |  5 +++++
 decoder_compact-u16.go |  5 +++++
 4 files changed, 34 insertions(+)

diff --git a/decoder.go b/decoder.go
index 976c298..9a0adc3 100644
--- a/decoder.go
+++ b/decoder.go
@@ -76,6 +76,25 @@ type Decoder struct {
 	currentFieldOpt *option
 
 	encoding Encoding
+
+	// depth is how deeply nested the value being decoded is.
+	depth int
+}
+
+// maxDepth limits the nesting of decoded values, so that hostile data for a
+// recursive type cannot exhaust the stack.
+const maxDepth = 10000
+
+func (dec *Decoder) enter() error {
+	if dec.depth >= maxDepth {
+		return fmt.Errorf("decode: exceeded max depth %d", maxDepth)
+	}
+	dec.depth++
+	return nil
+}
+
+func (dec *Decoder) leave() {
+	dec.depth--
 }
 
 // Reset resets the decoder to decode a new message.
diff --git a/decoder_bin.go b/decoder_bin.go
index 02f0921..1d3456d 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -42,6 +42,11 @@ func (dec *Decoder) decodeWithOptionBin(v interface{}, option *option) (err erro
 }
 
 func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
+	if err = dec.enter(); err != nil {
+		return
+	}
+	defer dec.leave()
+
 	if opt == nil {
 		opt = newDefaultOption()
 	}
diff --git a/decoder_borsh.go b/decoder_borsh.go
index 2ec0cef..f7d39f6 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -42,6 +42,11 @@ func (dec *Decoder) decodeWithOptionBorsh(v interface{}, option *option) (err er
 }
 
 func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
+	if err = dec.enter(); err != nil {
+		return
+	}
+	defer dec.leave()
+
 	if opt == nil {
 		opt = newDefaultOption()
 	}
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 8cef84b..0d2f7ab 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -41,6 +41,11 @@ func (dec *Decoder) decodeWithOptionCompactU16(v interface{}, option *option) (e
 }
 
 func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error) {
+	if err = dec.enter(); err != nil {
+		return
+	}
+	defer dec.leave()
+
 	if opt == nil {
 		opt = newDefaultOption()
 	}
-- 
2.43.0


From 36103ac635f3a3e772b63dca27583c922c79fe18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:47 +0000
Subject: [PATCH 25/25] fix: a size field above MaxInt64 declared an empty
 slice instead of being rejected

---
 decoder.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 9a0adc3..dcbc13b 100644
--- a/decoder.go
+++ b/decoder.go
@@ -173,9 +173,10 @@ func sizeof(t reflect.Type, v reflect.Value) int {
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		n := int(v.Uint())
 		// all the builtin array length types are native int
-		// so this guards against weird truncation
+		// so this guards against weird truncation: a count that does not
+		// fit is negative, which every use of it rejects
 		if n < 0 {
-			return 0
+			return -1
 		}
 		return n
 	default:
-- 
2.43.0

