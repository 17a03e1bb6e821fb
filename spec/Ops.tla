-------------------------------- MODULE Ops --------------------------------
(***************************************************************************)
(* Codec objects as state machines.                                        *)
(*                                                                         *)
(* Decoder state  [m, data, pos]; every read, peek, skip, seek, decode,    *)
(* reset and format change is a transition.                                *)
(* Encoder state  [m, out]; every write and encode appends.                *)
(*                                                                         *)
(* A transition is described by what it must return and where it leaves    *)
(* the state:                                                              *)
(*   ok   the operation succeeds with value v and position p               *)
(*   keep on failure: the position must be unchanged (else only bounded)   *)
(***************************************************************************)
EXTENDS Wire

ROk(v, p) == [ok |-> TRUE, v |-> v, p |-> p, keep |-> TRUE]
RKeep(p) == [ok |-> FALSE, v |-> <<>>, p |-> p, keep |-> TRUE]
RFree(p) == [ok |-> FALSE, v |-> <<>>, p |-> p, keep |-> FALSE]

FixedW(f) ==
  CASE f \in {"u8","byte","i8","bool","option"} -> 1
    [] f \in {"u16","i16"} -> 2
    [] f \in {"u32","i32","f32","coption"} -> 4
    [] f \in {"u64","i64","f64","disc","typeid"} -> 8
    [] f \in {"u128","i128","f128"} -> 16
FixedOps == {"u8","byte","i8","bool","option","u16","i16","u32","i32","f32","coption",
             "u64","i64","f64","disc","typeid","u128","i128","f128"}

FixedRead(m, f, big, D, p) ==
  LET w == FixedW(f) IN
  IF Rem(D, p) < w THEN RKeep(p)
  ELSE LET raw == Bytes(D, p, w)
           b == Order(raw, big)
       IN CASE f \in {"bool","option"} -> ROk(b[1] # 0, p + w)
            [] f = "coption" -> IF ToNat(raw) > 1 THEN RFree(p) ELSE ROk(ToNat(raw) = 1, p + w)
            [] f \in {"disc","typeid"} -> ROk(raw, p + w)
            [] f = "f32" -> IF m = "borsh" /\ IsNaN32(b) THEN RFree(p) ELSE ROk(b, p + w)
            [] f = "f64" -> IF m = "borsh" /\ IsNaN64(b) THEN RFree(p) ELSE ROk(b, p + w)
            [] OTHER -> ROk(b, p + w)

\* varints, narrowed to w bytes
VarRead(signed, w, D, p) ==
  LET r == IF signed THEN DecVarint(D, p) ELSE DecUvarint(D, p) IN
  IF ~r.ok THEN RFree(p)
  ELSE IF (IF signed THEN SExt(Trunc(r.v, w), 8) ELSE ZExt(Trunc(r.v, w), 8)) # r.v THEN RFree(p)
  ELSE ROk(Trunc(r.v, w), r.p)

\* the number of bytes asked for does not fit (n = -1: negative)
NRead(n, D, p, adv, v) == IF n < 0 \/ n > Rem(D, p) THEN RKeep(p) ELSE ROk(v, p + adv)

LenRead(m, D, p) ==
  LET wide == CASE m = "bin" -> LET r == DecUvarint(D, p) IN [ok |-> r.ok, p |-> r.p, v |-> r.v, keep |-> FALSE]
                [] m = "borsh" -> LET r == DecFix(D, p, 4, FALSE) IN
                                  [ok |-> r.ok, p |-> r.p, v |-> IF r.ok THEN ZExt(r.v, 8) ELSE <<>>, keep |-> TRUE]
                [] m = "c16" -> LET r == DecCompactU16(D, p) IN
                                  [ok |-> r.ok, p |-> r.p, v |-> LEn(r.n, 8), keep |-> TRUE]
  IN IF wide.ok THEN ROk(wide.v, wide.p) ELSE IF wide.keep THEN RKeep(p) ELSE RFree(p)

Sliced(r, p) == IF r.ok THEN ROk(r.v, r.p) ELSE RFree(p)

\* What a primitive read must do.  a is the operation with its arguments.
ReadOp(m, a, D, p) ==
  CASE a.f \in FixedOps -> FixedRead(m, a.f, a.big, D, p)
    [] a.f = "uv64" -> VarRead(FALSE, 8, D, p)
    [] a.f = "v64" -> VarRead(TRUE, 8, D, p)
    [] a.f = "uv32" -> VarRead(FALSE, 4, D, p)
    [] a.f = "v32" -> VarRead(TRUE, 4, D, p)
    [] a.f = "uv16" -> VarRead(FALSE, 2, D, p)
    [] a.f = "v16" -> VarRead(TRUE, 2, D, p)
    [] a.f \in {"bytes","nbytes","read"} ->
         IF a.n < 0 \/ a.n > Rem(D, p) THEN RKeep(p) ELSE ROk(Bytes(D, p, a.n), p + a.n)
    [] a.f = "peek" -> IF a.n < 0 \/ a.n > Rem(D, p) THEN RKeep(p) ELSE ROk(Bytes(D, p, a.n), p)
    [] a.f = "peekdisc" -> IF Rem(D, p) < 8 THEN RKeep(p) ELSE ROk(Bytes(D, p, 8), p)
    [] a.f \in {"skip","discard"} -> IF a.n < 0 \/ a.n > Rem(D, p) THEN RKeep(p) ELSE ROk(<<>>, p + a.n)
    [] a.f = "seek" -> IF a.n < 0 \/ a.n >= Len(D) THEN RKeep(p) ELSE ROk(<<>>, a.n)
    [] a.f \in {"byteslice","string"} -> Sliced(LenBytesDec(m, D, p), p)
    [] a.f = "safe" -> LET r == LenBytesDec(m, D, p) IN IF r.ok THEN ROk(FixUtf(r.v), r.p) ELSE RFree(p)
    [] a.f = "rust" -> Sliced(StrDec("bin", D, p), p)
    [] a.f \in {"cu16","cu16len"} -> LET r == DecCompactU16(D, p) IN
                                     IF r.ok THEN ROk(LEn(r.n, 8), r.p) ELSE RKeep(p)
    [] a.f = "len" -> LenRead(m, D, p)

InBounds(o, D) == o.pos >= 0 /\ o.pos <= Len(D) /\ o.pos + o.rem = Len(D) /\ o.len = Len(D)
                  /\ o.has = (o.rem > 0)

\* a length that does not fit an int32 may be refused
Fits31(v) == \A i \in 1..Len(v) : (i > 4 => v[i] = 0) /\ (i = 4 => v[i] < 128)
TooLong(a, r) == a.f = "len" /\ r.ok /\ ~Fits31(r.v)
\* seeking to the very end is allowed to be refused or not
ReadOk(m, a, D, p, o) ==
  LET r == ReadOp(m, a, D, p) IN
  /\ InBounds(o, D) /\ o.is = m
  /\ \/ r.ok /\ o.r = "ok" /\ o.v = r.v /\ o.pos = r.p
     \/ ~r.ok /\ o.r = "err" /\ (r.keep => o.pos = p)
     \/ TooLong(a, r) /\ o.r = "err"
     \/ a.f = "seek" /\ a.n = Len(D) /\ o.r = "ok" /\ o.pos = a.n

---------------------------------------------------------------------------
\* Primitive writes: the bytes appended, or Fail when the argument is refused.
\* Integers are 8-byte tuples, narrower arguments narrower tuples.
Neg8(v) == SignBit(v) = 1
WriteOp(m, a) ==
  CASE a.f \in {"u8","byte","i8"} -> Ok(a.v)
    [] a.f \in {"bool","option"} -> Ok(IF a.v THEN <<1>> ELSE <<0>>)
    [] a.f = "coption" -> Ok(IF a.v THEN <<1,0,0,0>> ELSE <<0,0,0,0>>)
    [] a.f \in {"u16","i16","u32","i32","u64","i64","u128","i128"} -> Ok(Order(a.v, a.big))
    [] a.f = "f32" -> IF m = "borsh" /\ IsNaN32(a.v) THEN Fail ELSE Ok(Order(a.v, a.big))
    [] a.f = "f64" -> IF m = "borsh" /\ IsNaN64(a.v) THEN Fail ELSE Ok(Order(a.v, a.big))
    [] a.f = "uvarint" -> Ok(Uvarint(a.v))
    [] a.f = "varint" -> Ok(Varint(a.v))
    [] a.f = "write" -> Ok(a.v)
    [] a.f = "bytes" -> IF a.pre THEN LenBytes(m, a.v) ELSE Ok(a.v)
    [] a.f = "string" -> LenBytes(m, a.v)
    [] a.f = "rust" -> Ok(LEn(Len(a.v), 8) \o a.v)
    [] a.f \in {"cu16","cu16len"} -> IF Neg8(a.v) \/ ToNat(a.v) > 65535 THEN Fail ELSE Ok(CompactU16(ToNat(a.v)))
    [] a.f = "len" -> CASE m = "c16" -> IF Neg8(a.v) \/ ToNat(a.v) > 65535 THEN Fail ELSE Ok(CompactU16(ToNat(a.v)))
                        [] m = "bin" -> Ok(Uvarint(a.v))
                        [] m = "borsh" -> Ok(Trunc(a.v, 4))

\* o.d: bytes that appeared in the output, o.w: the written count
WriteOk(m, out, a, o) ==
  LET e == WriteOp(m, a) IN
  IF e.ok THEN o.r = "ok" /\ o.d = e.b /\ o.w = Len(out) + Len(e.b)
  ELSE o.r = "err" /\ o.d = <<>> /\ o.w = Len(out)
============================================================================
