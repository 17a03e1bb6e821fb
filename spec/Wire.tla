-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The three wire formats as a pair of total functions on (schema, value): *)
(*   EncV : what an encoder must emit                                      *)
(*   DecV : what a decoder must do with arbitrary bytes                    *)
(*                                                                         *)
(* Formats: "bin", "c16" (CompactU16), "borsh".                            *)
(*                                                                         *)
(* Schemas are records with a kind k:                                      *)
(*   u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 bool str          Go kinds      *)
(*   Uint128 Int128 Float128 Int64 Uint64 JSONFloat64 SafeString Bool      *)
(*   HexBytes Varint16 Varuint16 Varint32 Varuint32          library types *)
(*   arr(n,e) slice(e) map(key,e) ptr(e) struct(f, enum)                   *)
(*   iface, unsup, ifc(e): an interface holding a pointer to a codec       *)
(*   CustA CustP CustK CustN CustO CustM CustR CustL CustD Cs..            *)
(*                                       test types with their own codec   *)
(* Struct fields: [n, t, skip, opt, copt, big, so, ext, unexp].            *)
(*                                                                         *)
(* Values: numbers and floats are little-endian byte tuples; bool is       *)
(* BOOLEAN; str a byte sequence; slice [nil, s], map [nil, m] with m a     *)
(* sequence of <<key, value>>; ptr <<>> or <<v>>; struct a tuple of all    *)
(* its fields; arrays and slices of byte kind are flat byte sequences.     *)
(***************************************************************************)
EXTENDS Bytes

Modes == {"bin", "c16", "borsh"}

IntK    == {"u8","u16","u32","u64","i8","i16","i32","i64"}
NatK    == {"u8","u16","u32","u64"}
OrdLibK == {"Uint128","Int128","Float128","Int64","Uint64"}
VarK    == {"Varint16","Varuint16","Varint32","Varuint32"}
CsInt   == {"CsU8","CsU32","CsU64","CsI8","CsI16","CsI32","CsI64"}
CsNum   == CsInt \cup {"CsF32","CsF64"}
CsK     == CsNum \cup {"CsBl","CsSt"}     \* a codec on every scalar kind
CustKs  == {"CustA","CustP","CustK","CustN","CustO","CustM","CustR","CustL","CustD"} \cup CsK

Width(k) ==
  CASE k \in {"u8","i8","CsU8","CsI8"} -> 1
    [] k \in {"u16","i16","Varint16","Varuint16","CustK","CsI16"} -> 2
    [] k \in {"u32","i32","f32","Varint32","Varuint32","CsU32","CsI32","CsF32"} -> 4
    [] k \in {"u64","i64","f64","Int64","Uint64","JSONFloat64","CsU64","CsI64","CsF64"} -> 8
    [] k \in {"Uint128","Int128","Float128"} -> 16

\* Width of the plain unsigned storage used inside arrays and slices
\* (0: element has its ordinary encoding).
UKind(t) == CASE t.k \in NatK -> Width(t.k)
              [] t.k \in {"Uint64","Varuint16","Varuint32","CustK","CsU8","CsU32","CsU64"} -> Width(t.k)
              [] OTHER -> 0
Flat(t) == UKind(t) = 1

Signed(k) == k \in {"i8","i16","i32","i64","Int64","Varint16","Varint32","CsI8","CsI16","CsI32","CsI64"}

\* The schema of the inner value CustN delegates to.
CustNInner ==
  [k |-> "struct", enum |-> FALSE, f |-> <<
     [n |-> "A", t |-> [k |-> "u16"], skip |-> FALSE, opt |-> FALSE, copt |-> FALSE,
      big |-> TRUE, so |-> "", ext |-> FALSE, unexp |-> FALSE],
     [n |-> "B", t |-> [k |-> "slice", e |-> [k |-> "u8"]], skip |-> FALSE, opt |-> FALSE,
      copt |-> FALSE, big |-> FALSE, so |-> "", ext |-> FALSE, unexp |-> FALSE]>>]

RECURSIVE Zero(_)
Zero(t) ==
  CASE t.k \in {"bool","Bool","CsBl"} -> FALSE
    [] t.k \in {"str","SafeString","CsSt"} -> <<>>
    [] t.k = "HexBytes" -> [nil |-> TRUE, s |-> <<>>]
    [] t.k = "slice" -> [nil |-> TRUE, s |-> <<>>]
    [] t.k = "map" -> [nil |-> TRUE, m |-> <<>>]
    [] t.k \in {"ptr","ifc"} -> <<>>
    [] t.k = "arr" -> IF Flat(t.e) THEN Zeros(t.n) ELSE [i \in 1..t.n |-> Zero(t.e)]
    [] t.k = "struct" -> [i \in 1..Len(t.f) |-> Zero(t.f[i].t)]
    [] t.k \in {"iface","unsup"} -> 0
    [] t.k = "CustA" -> <<Zeros(2), <<>>>>
    [] t.k = "CustP" -> <<Zeros(2)>>
    [] t.k = "CustO" -> <<Zeros(8)>>
    [] t.k = "CustM" -> <<Zeros(2), Zeros(8)>>
    [] t.k = "CustR" -> Zeros(3)
    [] t.k = "CustL" -> [nil |-> TRUE, s |-> <<>>]
    [] t.k = "CustD" -> [nil |-> TRUE, m |-> <<>>]
    [] t.k = "CustN" -> <<Zeros(2), [nil |-> TRUE, s |-> <<>>], Zeros(4)>>
    [] OTHER -> Zeros(Width(t.k))

\* Go's notion of the zero value (decides presence of optional fields).
RECURSIVE IsZero(_,_)
IsZero(t, v) ==
  CASE t.k \in {"bool","Bool","CsBl"} -> ~v
    [] t.k \in {"str","SafeString","CsSt","ptr","ifc"} -> v = <<>>
    [] t.k \in {"slice","map","HexBytes","CustL","CustD"} -> v.nil
    [] t.k = "arr" -> IF Flat(t.e) THEN AllZero(v) ELSE \A i \in 1..Len(v) : IsZero(t.e, v[i])
    [] t.k = "struct" -> \A i \in 1..Len(v) : IsZero(t.f[i].t, v[i])
    [] t.k \in {"iface","unsup"} -> v = 0
    [] t.k = "CustA" -> AllZero(v[1]) /\ v[2] = <<>>
    [] t.k \in {"CustP","CustO"} -> AllZero(v[1])
    [] t.k = "CustM" -> AllZero(v[1]) /\ AllZero(v[2])
    [] t.k = "CustN" -> AllZero(v[1]) /\ v[2].nil /\ AllZero(v[3])
    [] OTHER -> AllZero(v)

---------------------------------------------------------------------------
\* Encoding

Ok(b) == [ok |-> TRUE, b |-> b]
Fail == [ok |-> FALSE, b |-> <<>>]
CatE(a, b) == IF a.ok /\ b.ok THEN Ok(a.b \o b.b) ELSE Fail
CatAll(rs) == IF \A i \in 1..Len(rs) : rs[i].ok
              THEN Ok(FlattenSeq([i \in 1..Len(rs) |-> rs[i].b])) ELSE Fail

\* count prefix
LenEnc(m, n) == CASE m = "bin" -> Ok(UvarintNat(n))
                  [] m = "borsh" -> Ok(LEn(n, 4))
                  [] m = "c16" -> IF n > 65535 THEN Fail ELSE Ok(CompactU16(n))
LenBytes(m, s) == CatE(LenEnc(m, Len(s)), Ok(s))
\* a Go string
StrEnc(m, s) == IF m = "bin" THEN Ok(LEn(Len(s), 8) \o s) ELSE LenBytes(m, s)

\* options a value is encoded or decoded under: byte order of its field and
\* the element count declared elsewhere (-1: none, -2: negative)
O0 == [big |-> FALSE, so |-> -1]

\* declared element count held by a size field
SizeCount(t, v) ==
  IF Signed(t.k) THEN IF SignBit(v) = 1 THEN -2 ELSE ToNat(v)
  ELSE IF Len(v) = 8 /\ SignBit(v) = 1 THEN -2 ELSE ToNat(v)

KeyLess(t, a, b) ==
  CASE t.k \in {"str","SafeString","CsSt"} -> LexLess(a, b)
    [] t.k \in {"f32","f64","JSONFloat64","CsF32","CsF64"} -> FLess(a, b)
    [] Signed(t.k) -> SLess(a, b)
    [] OTHER -> ULess(a, b)
SortableKey(t) == t.k \in IntK \cup {"str","SafeString","f32","f64","JSONFloat64","Int64","Uint64","CustK","CsSt"} \cup VarK \cup CsNum

SoOf(so, name) == IF name \in DOMAIN so THEN so[name] ELSE -1

RECURSIVE EncV(_,_,_,_)
EncField(m, f, v, so) ==
  LET pay == EncV(m, f.t, v, [big |-> f.big, so |-> so])
      zero == IsZero(f.t, v)
  IN CASE m = "bin" ->
            IF ~f.opt THEN pay
            ELSE IF zero THEN Ok(<<0,0,0,0>>) ELSE CatE(Ok(<<1,0,0,0>>), pay)
       [] m = "c16" ->
            IF ~f.opt THEN pay ELSE IF zero THEN Ok(<<0>>) ELSE CatE(Ok(<<1>>), pay)
       [] m = "borsh" ->
            IF (f.opt \/ f.copt) /\ zero THEN Ok(IF f.opt THEN <<0>> ELSE <<0,0,0,0>>)
            ELSE CatE(Ok((IF f.opt THEN <<1>> ELSE <<>>)
                         \o (IF f.copt THEN <<1,0,0,0>> ELSE <<>>)), pay)

EncFields(m, t, v) ==
  LET step(acc, i) ==
        LET f == t.f[i] IN
        IF f.skip THEN acc
        ELSE LET so == IF f.so = "" THEN acc.so
                       ELSE (f.so :> SizeCount(f.t, v[i])) @@ acc.so
             IN IF f.unexp THEN [acc EXCEPT !.so = so]
                ELSE [so |-> so,
                      r |-> IF acc.r.ok THEN CatE(acc.r, EncField(m, f, v[i], SoOf(so, f.n)))
                            ELSE Fail]
      res == FoldLeft(step, [so |-> <<>>, r |-> Ok(<<>>)], [i \in 1..Len(t.f) |-> i])
  IN res.r

EncElems(m, e, s) ==
  IF Flat(e) THEN Ok(s)
  ELSE IF UKind(e) > 0 THEN Ok(FlattenSeq(s))
  ELSE CatAll([i \in 1..Len(s) |-> EncV(m, e, s[i], O0)])

EncV(m, t, v, o) ==
  CASE t.k \in IntK -> Ok(Order(v, o.big /\ m # "borsh"))
    [] t.k = "f32" -> IF m = "borsh" /\ IsNaN32(v) THEN Fail
                      ELSE Ok(Order(Quiet32(v), o.big /\ m # "borsh"))
    [] t.k = "f64" -> IF m = "borsh" /\ IsNaN64(v) THEN Fail
                      ELSE Ok(Order(v, o.big /\ m # "borsh"))
    [] t.k \in {"bool","Bool"} -> Ok(IF v THEN <<1>> ELSE <<0>>)
    [] t.k = "str" -> StrEnc(m, v)
    [] t.k = "SafeString" -> LenBytes(m, v)
    [] t.k = "HexBytes" -> LenBytes(m, v.s)
    [] t.k \in OrdLibK -> Ok(Order(v, o.big))
    [] t.k = "JSONFloat64" -> IF m = "borsh" /\ IsNaN64(v) THEN Fail ELSE Ok(Order(v, o.big))
    [] t.k \in {"Varuint16","Varuint32"} -> Ok(Uvarint(v))
    [] t.k \in {"Varint16","Varint32"} -> Ok(Varint(v))
    [] t.k = "ptr" ->
         IF v = <<>> THEN (IF m = "borsh" THEN EncV(m, t.e, Zero(t.e), o) ELSE Ok(<<>>))
         ELSE IF t.e.k = "CustP" THEN (IF v[1][1][2] = 222 THEN Fail ELSE Ok(<<182>> \o Reverse(v[1][1])))
         ELSE EncV(m, t.e, v[1], o)
    [] t.k = "arr" -> EncElems(m, t.e, v)
    [] t.k = "slice" ->
         IF o.so = -1 THEN CatE(LenEnc(m, Len(v.s)), EncElems(m, t.e, v.s))
         ELSE IF o.so < 0 \/ o.so > Len(v.s) THEN Fail
         ELSE EncElems(m, t.e, SubSeq(v.s, 1, o.so))
    [] t.k = "map" ->
         LET es == IF m = "borsh" /\ Len(v.m) > 1
                   THEN SortSeq(v.m, LAMBDA x, y : KeyLess(t.key, x[1], y[1])) ELSE v.m
         IN CatE(LenEnc(m, Len(es)),
                 CatAll([i \in 1..Len(es) |-> CatE(EncV(m, t.key, es[i][1], O0),
                                                   EncV(m, t.e, es[i][2], O0))]))
    [] t.k = "struct" ->
         IF t.enum /\ m = "borsh"
         THEN LET tag == v[1][1] IN
              IF tag + 2 > Len(t.f) THEN Fail
              ELSE CatE(Ok(<<tag>>), EncV(m, t.f[tag+2].t, v[tag+2], O0))
         ELSE EncFields(m, t, v)
    [] t.k = "iface" -> Ok(<<>>)
    [] t.k = "ifc" -> IF v = <<>> THEN Ok(<<>>) ELSE EncV(m, [k |-> "ptr", e |-> t.e], v, o)
    [] t.k = "unsup" -> Fail
    \* test types: see harness/types.go
    [] t.k = "CustA" -> IF v[1] = <<173, 222>> THEN Fail
                        ELSE CatE(Ok(<<165>> \o Reverse(v[1])), LenBytes(m, v[2]))
    [] t.k = "CustP" -> Ok(v[1])   \* methods are on the pointer: by value it is a plain struct
    [] t.k = "CustK" -> Ok(<<199>> \o Reverse(v))
    [] t.k \in CsNum -> Ok(<<213>> \o Reverse(v))
    [] t.k = "CsBl" -> Ok(<<213, IF v THEN 90 ELSE 165>>)
    [] t.k = "CsSt" -> IF Len(v) > 255 THEN Fail ELSE Ok(<<213, Len(v)>> \o Reverse(v))
    [] t.k = "CustN" -> CatE(EncV(m, CustNInner, <<v[1], v[2]>>, O0), Ok(v[3]))
    [] t.k = "CustO" -> Ok(Order(v[1], o.big))
    \* a struct with the opposite byte order, then a number in the order of the field
    [] t.k = "CustR" -> Ok(<<210>> \o Reverse(v))
    [] t.k = "CustL" -> Ok(<<211, Len(v.s) % 256>> \o FlattenSeq([i \in 1..Len(v.s) |-> Reverse(v.s[i])]))
    [] t.k = "CustD" -> Ok(<<212, Len(v.m) % 256>>
                           \o FlattenSeq([i \in 1..Len(v.m) |-> LET e == SortSeq(v.m, LAMBDA x, y : x[1][1] < y[1][1])[i]
                                                                IN e[1] \o e[2]]))
    [] t.k = "CustM" -> Ok(Order(v[1], m # "borsh") \o Order(v[2], o.big))

Enc(m, t, v) == EncV(m, t, v, O0)

---------------------------------------------------------------------------
\* Decoding: D the whole buffer, p bytes consumed so far, pr what the
\* destination held before.

DOk(p, v) == [ok |-> TRUE, p |-> p, v |-> v]
DFail == [ok |-> FALSE, p |-> 0, v |-> <<>>]

Rem(D, p) == Len(D) - p
Bytes(D, p, n) == SubSeq(D, p+1, p+n)
DecFix(D, p, w, big) == IF Rem(D, p) < w THEN DFail ELSE DOk(p + w, Order(Bytes(D, p, w), big))

\* count prefix; v is a (saturated) natural number
LenDec(m, D, p) ==
  CASE m = "bin" -> LET r == DecUvarint(D, p) IN
                    IF r.ok /\ ToNat(r.v) < HUGE THEN DOk(r.p, ToNat(r.v))
                    ELSE IF r.ok THEN DOk(r.p, HUGE) ELSE DFail
    [] m = "borsh" -> LET r == DecFix(D, p, 4, FALSE) IN IF r.ok THEN DOk(r.p, ToNat(r.v)) ELSE DFail
    [] m = "c16" -> LET r == DecCompactU16(D, p) IN IF r.ok THEN DOk(r.p, r.n) ELSE DFail
BytesAfterLen(r, D) == IF ~r.ok \/ r.v > Rem(D, r.p) THEN DFail ELSE DOk(r.p + r.v, Bytes(D, r.p, r.v))
LenBytesDec(m, D, p) == BytesAfterLen(LenDec(m, D, p), D)
StrDec(m, D, p) ==
  IF m = "bin"
  THEN LET r == DecFix(D, p, 8, FALSE) IN
       IF ~r.ok THEN DFail ELSE BytesAfterLen(DOk(r.p, ToNat(r.v)), D)
  ELSE LenBytesDec(m, D, p)

RECURSIVE DecV(_,_,_,_,_,_)
RECURSIVE DecSeq(_,_,_,_,_,_)
\* n consecutive elements, collected into acc; fresh destinations
DecSeq(m, e, n, D, p, acc) ==
  IF n = 0 THEN DOk(p, acc)
  ELSE LET r == DecV(m, e, O0, D, p, Zero(e)) IN
       IF ~r.ok THEN DFail ELSE DecSeq(m, e, n-1, D, r.p, Append(acc, r.v))

\* n consecutive array elements over existing ones
RECURSIVE DecArr(_,_,_,_,_,_)
DecArr(m, e, D, p, pr, acc) ==
  IF Len(acc) = Len(pr) THEN DOk(p, acc)
  ELSE LET r == DecV(m, e, O0, D, p, pr[Len(acc)+1]) IN
       IF ~r.ok THEN DFail ELSE DecArr(m, e, D, r.p, pr, Append(acc, r.v))

PutEntry(es, k, v) ==
  LET at == {i \in 1..Len(es) : es[i][1] = k} IN
  IF at = {} THEN Append(es, <<k, v>>)
  ELSE [es EXCEPT ![CHOOSE i \in at : TRUE] = <<k, v>>]

RECURSIVE DecMap(_,_,_,_,_,_)
DecMap(m, t, n, D, p, acc) ==
  IF n = 0 THEN DOk(p, acc)
  ELSE LET rk == DecV(m, t.key, O0, D, p, Zero(t.key)) IN
       IF ~rk.ok THEN DFail
       ELSE LET rv == DecV(m, t.e, O0, D, rk.p, Zero(t.e)) IN
            IF ~rv.ok THEN DFail
            ELSE DecMap(m, t, n-1, D, rv.p, PutEntry(acc, rk.v, rv.v))

\* plain unsigned storage of arrays and slices
DecUints(D, p, n, w) ==
  IF n > Rem(D, p) \div w THEN DFail
  ELSE IF w = 1 THEN DOk(p + n, Bytes(D, p, n))
  ELSE DOk(p + n*w, [i \in 1..n |-> Bytes(D, p + (i-1)*w, w)])

DecField(m, f, so, D, p, pr) ==
  LET o == [big |-> f.big, so |-> so]
      absent(q) == DOk(q, Zero(f.t))
      payload(q) == DecV(m, f.t, o, D, q, pr)
      copt(q) == LET r == DecFix(D, q, 4, FALSE) IN
                 IF ~r.ok \/ ToNat(r.v) > 1 THEN DFail
                 ELSE IF ToNat(r.v) = 0 THEN absent(r.p) ELSE payload(r.p)
  IN CASE m = "bin" /\ f.opt -> LET r == DecFix(D, p, 4, FALSE) IN
            IF ~r.ok THEN DFail ELSE IF AllZero(r.v) THEN absent(r.p) ELSE payload(r.p)
       [] m # "bin" /\ f.opt -> LET r == DecFix(D, p, 1, FALSE) IN
            IF ~r.ok THEN DFail ELSE IF AllZero(r.v) THEN absent(r.p)
            ELSE IF m = "borsh" /\ f.copt THEN copt(r.p) ELSE payload(r.p)
       [] m = "borsh" /\ ~f.opt /\ f.copt -> copt(p)
       [] OTHER -> payload(p)

RECURSIVE DecFields(_,_,_,_,_,_,_)
DecFields(m, t, i, so, D, p, pr) ==
  IF i > Len(t.f) THEN DOk(p, pr)
  ELSE LET f == t.f[i] IN
       IF f.skip \/ f.unexp \/ (f.ext /\ Rem(D, p) = 0)
       THEN DecFields(m, t, i+1, so, D, p, pr)
       ELSE LET r == DecField(m, f, SoOf(so, f.n), D, p, pr[i]) IN
            IF ~r.ok THEN DFail
            ELSE LET so2 == IF f.so = "" THEN so ELSE (f.so :> SizeCount(f.t, r.v)) @@ so
                 IN DecFields(m, t, i+1, so2, D, r.p, [pr EXCEPT ![i] = r.v])

DecV(m, t, o, D, p, pr) ==
  CASE t.k \in IntK -> DecFix(D, p, Width(t.k), o.big /\ m # "borsh")
    [] t.k = "f32" -> LET r == DecFix(D, p, 4, o.big /\ m # "borsh") IN
                      IF r.ok /\ m = "borsh" /\ IsNaN32(r.v) THEN DFail
                      ELSE IF r.ok THEN DOk(r.p, Quiet32(r.v)) ELSE DFail
    [] t.k = "f64" -> LET r == DecFix(D, p, 8, o.big /\ m # "borsh") IN
                      IF r.ok /\ m = "borsh" /\ IsNaN64(r.v) THEN DFail ELSE r
    [] t.k \in {"bool","Bool"} -> LET r == DecFix(D, p, 1, FALSE) IN
                      IF r.ok THEN DOk(r.p, r.v[1] # 0) ELSE DFail
    [] t.k = "str" -> StrDec(m, D, p)
    [] t.k = "SafeString" -> LET r == LenBytesDec(m, D, p) IN
                      IF r.ok THEN DOk(r.p, FixUtf(r.v)) ELSE DFail
    [] t.k = "HexBytes" -> LET r == LenBytesDec(m, D, p) IN
                      IF r.ok THEN DOk(r.p, [nil |-> FALSE, s |-> r.v]) ELSE DFail
    [] t.k \in OrdLibK -> DecFix(D, p, Width(t.k), o.big)
    [] t.k = "JSONFloat64" -> LET r == DecFix(D, p, 8, o.big) IN
                      IF r.ok /\ m = "borsh" /\ IsNaN64(r.v) THEN DFail ELSE r
    [] t.k \in {"Varuint16","Varuint32"} ->
         LET r == DecUvarint(D, p)
             w == Width(t.k)
         IN IF ~r.ok \/ r.v # ZExt(Trunc(r.v, w), 8) THEN DFail ELSE DOk(r.p, Trunc(r.v, w))
    [] t.k \in {"Varint16","Varint32"} ->
         LET r == DecVarint(D, p)
             w == Width(t.k)
         IN IF ~r.ok \/ r.v # SExt(Trunc(r.v, w), 8) THEN DFail ELSE DOk(r.p, Trunc(r.v, w))
    [] t.k = "ptr" ->
         LET r == DecV(m, t.e, o, D, p, IF pr = <<>> THEN Zero(t.e) ELSE pr[1])
         IN IF r.ok THEN DOk(r.p, <<r.v>>) ELSE DFail
    [] t.k = "arr" -> IF UKind(t.e) > 0 THEN DecUints(D, p, t.n, UKind(t.e))
                      ELSE DecArr(m, t.e, D, p, pr, <<>>)
    [] t.k = "slice" ->
         LET c == IF o.so = -1 THEN LenDec(m, D, p)
                  ELSE IF o.so < 0 THEN DFail ELSE DOk(p, o.so)
         IN IF ~c.ok \/ c.v > Rem(D, c.p) THEN DFail
            ELSE LET r == IF UKind(t.e) > 0 THEN DecUints(D, c.p, c.v, UKind(t.e))
                          ELSE DecSeq(m, t.e, c.v, D, c.p, <<>>)
                 IN IF r.ok THEN DOk(r.p, [nil |-> FALSE, s |-> r.v]) ELSE DFail
    [] t.k = "map" ->
         LET c == LenDec(m, D, p) IN
         IF ~c.ok THEN DFail
         ELSE LET r == DecMap(m, t, c.v, D, c.p, <<>>)
              IN IF r.ok THEN DOk(r.p, [nil |-> FALSE, m |-> r.v]) ELSE DFail
    [] t.k = "struct" ->
         IF t.enum /\ m = "borsh"
         THEN LET g == DecFix(D, p, 1, FALSE) IN
              IF ~g.ok THEN DFail
              ELSE LET i == g.v[1] + 2 IN
                   IF i > Len(t.f) THEN DFail
                   ELSE LET r == DecV(m, t.f[i].t, O0, D, g.p, pr[i]) IN
                        IF r.ok THEN DOk(r.p, [pr EXCEPT ![1] = g.v, ![i] = r.v]) ELSE DFail
         ELSE DecFields(m, t, 1, <<>>, D, p, pr)
    [] t.k = "iface" -> DOk(p, pr)
    [] t.k = "ifc" -> IF pr = <<>> THEN DOk(p, pr) ELSE DecV(m, [k |-> "ptr", e |-> t.e], o, D, p, pr)
    [] t.k = "unsup" -> DFail
    [] t.k = "CustA" ->
         IF Rem(D, p) < 3 \/ D[p+1] # 165 THEN DFail
         ELSE LET x == Reverse(Bytes(D, p+1, 2))
                  r == LenBytesDec(m, D, p+3)
              IN IF ~r.ok \/ x = <<239, 190>> THEN DFail ELSE DOk(r.p, <<x, r.v>>)
    [] t.k = "CustP" -> IF Rem(D, p) < 3 \/ D[p+1] # 182 \/ D[p+2] = 190 THEN DFail
                        ELSE DOk(p+3, <<Reverse(Bytes(D, p+1, 2))>>)
    [] t.k = "CustK" -> IF Rem(D, p) < 3 \/ D[p+1] # 199 THEN DFail
                        ELSE DOk(p+3, Reverse(Bytes(D, p+1, 2)))
    [] t.k \in CsNum -> LET w == Width(t.k) IN
                        IF Rem(D, p) < w + 1 \/ D[p+1] # 213 THEN DFail
                        ELSE DOk(p+1+w, Reverse(Bytes(D, p+1, w)))
    [] t.k = "CsBl" -> IF Rem(D, p) < 2 \/ D[p+1] # 213 \/ D[p+2] \notin {90, 165} THEN DFail
                       ELSE DOk(p+2, D[p+2] = 90)
    [] t.k = "CsSt" -> IF Rem(D, p) < 2 \/ D[p+1] # 213 \/ Rem(D, p) < 2 + D[p+2] THEN DFail
                       ELSE DOk(p + 2 + D[p+2], Reverse(Bytes(D, p+2, D[p+2])))
    [] t.k = "CustN" ->
         LET r == DecV(m, CustNInner, O0, D, p, Zero(CustNInner)) IN
         IF ~r.ok THEN DFail
         ELSE LET c == DecFix(D, r.p, 4, FALSE) IN
              IF c.ok THEN DOk(c.p, <<r.v[1], r.v[2], c.v>>) ELSE DFail
    [] t.k = "CustO" -> LET r == DecFix(D, p, 8, o.big) IN
                        IF r.ok THEN DOk(r.p, <<r.v>>) ELSE DFail
    [] t.k = "CustR" -> IF Rem(D, p) < 4 \/ D[p+1] # 210 THEN DFail ELSE DOk(p+4, Reverse(Bytes(D, p+1, 3)))
    [] t.k = "CustL" ->
         IF Rem(D, p) < 2 \/ D[p+1] # 211 \/ Rem(D, p) < 2 + 2*D[p+2] THEN DFail
         ELSE DOk(p + 2 + 2*D[p+2], [nil |-> FALSE, s |-> [i \in 1..D[p+2] |-> Reverse(Bytes(D, p + 2*i, 2))]])
    [] t.k = "CustD" ->
         IF Rem(D, p) < 2 \/ D[p+1] # 212 \/ Rem(D, p) < 2 + 2*D[p+2] THEN DFail
         ELSE DOk(p + 2 + 2*D[p+2],
                  [nil |-> FALSE, m |-> FoldLeft(LAMBDA acc, i : PutEntry(acc, Bytes(D, p + 2*i, 1), Bytes(D, p + 2*i + 1, 1)),
                                                 <<>>, [i \in 1..D[p+2] |-> i])])
    [] t.k = "CustM" -> LET a == DecFix(D, p, 2, m # "borsh") IN
                        IF ~a.ok THEN DFail
                        ELSE LET b == DecFix(D, a.p, 8, o.big) IN
                             IF b.ok THEN DOk(b.p, <<a.v, b.v>>) ELSE DFail

Dec(m, t, D, p, pr) == DecV(m, t, O0, D, p, pr)
DecFresh(m, t, D, p) == DecV(m, t, O0, D, p, Zero(t))

---------------------------------------------------------------------------
\* Value equality up to what the wire cannot distinguish: nil and empty
\* slices and maps, order of map entries, quiet and signalling NaN.
RECURSIVE Norm(_,_)
Norm(t, v) ==
  CASE t.k \in {"f32","CsF32"} -> Quiet32(v)
    [] t.k = "HexBytes" -> v.s
    [] t.k = "slice" -> IF UKind(t.e) > 0 THEN v.s ELSE [i \in 1..Len(v.s) |-> Norm(t.e, v.s[i])]
    [] t.k = "map" -> {<<Norm(t.key, v.m[i][1]), Norm(t.e, v.m[i][2])>> : i \in 1..Len(v.m)}
    [] t.k \in {"ptr","ifc"} -> IF v = <<>> THEN v ELSE <<Norm(t.e, v[1])>>
    [] t.k = "arr" -> IF UKind(t.e) > 0 THEN v ELSE [i \in 1..Len(v) |-> Norm(t.e, v[i])]
    [] t.k = "struct" -> [i \in 1..Len(v) |-> Norm(t.f[i].t, v[i])]
    [] t.k = "CustN" -> <<v[1], v[2].s, v[3]>>
    [] t.k = "CustL" -> v.s
    [] t.k = "CustD" -> {v.m[i] : i \in 1..Len(v.m)}
    [] OTHER -> v
SameV(t, a, b) == Norm(t, a) = Norm(t, b)

\* What a fresh destination holds after a round trip: everything that is on
\* the wire, zero elsewhere.
RECURSIVE Proj(_,_,_)
ProjFields(m, t, v) ==
  LET so == FoldLeft(LAMBDA acc, i : IF t.f[i].so = "" \/ t.f[i].skip THEN acc
                         ELSE (t.f[i].so :> SizeCount(t.f[i].t, v[i])) @@ acc,
                     <<>>, [i \in 1..Len(t.f) |-> i])
      cut(f, w) == LET c == SoOf(so, f.n) IN
                   IF c = -1 THEN w
                   ELSE IF f.t.k = "slice" THEN [w EXCEPT !.s = SubSeq(w.s, 1, c)]
                   ELSE IF f.t.k = "ptr" /\ f.t.e.k = "slice" /\ w # <<>>
                        THEN <<[w[1] EXCEPT !.s = SubSeq(w[1].s, 1, c)]>> ELSE w
  IN [i \in 1..Len(t.f) |->
        LET f == t.f[i] IN
        IF f.skip \/ f.unexp \/ f.t.k = "iface" THEN Zero(f.t)
        ELSE IF (f.opt \/ (f.copt /\ m = "borsh")) /\ IsZero(f.t, v[i]) THEN Zero(f.t)
        ELSE cut(f, Proj(m, f.t, v[i]))]
Proj(m, t, v) ==
  CASE t.k = "ptr" -> IF v = <<>> THEN v ELSE <<Proj(m, t.e, v[1])>>
    [] t.k = "arr" -> IF UKind(t.e) > 0 THEN v ELSE [i \in 1..Len(v) |-> Proj(m, t.e, v[i])]
    [] t.k = "slice" -> IF UKind(t.e) > 0 THEN v
                        ELSE [v EXCEPT !.s = [i \in 1..Len(v.s) |-> Proj(m, t.e, v.s[i])]]
    [] t.k = "map" -> [v EXCEPT !.m = [i \in 1..Len(v.m) |-> <<v.m[i][1], Proj(m, t.e, v.m[i][2])>>]]
    [] t.k = "struct" ->
         IF t.enum /\ m = "borsh"
         THEN [i \in 1..Len(t.f) |-> IF i = 1 THEN v[1]
                 ELSE IF i = v[1][1] + 2 THEN Proj(m, t.f[i].t, v[i]) ELSE Zero(t.f[i].t)]
         ELSE ProjFields(m, t, v)
    [] t.k = "iface" -> 0
    [] t.k = "ifc" -> <<>>
    [] t.k = "SafeString" -> FixUtf(v)
    [] OTHER -> v

\* Smallest possible encoded width (used to exclude slices of elements
\* that occupy no bytes, which no count-guarded decoder can carry).
RECURSIVE MinW(_,_)
MinW(m, t) ==
  CASE t.k \in IntK \cup OrdLibK \cup {"f32","f64","JSONFloat64"} -> Width(t.k)
    [] t.k = "ptr" -> MinW(m, t.e)
    [] t.k = "arr" -> IF t.n = 0 THEN 0 ELSE t.n * MinW(m, t.e)
    [] t.k = "struct" ->
         IF t.enum /\ m = "borsh" THEN 1
         ELSE FoldLeft(LAMBDA a, f : IF f.skip \/ f.unexp THEN a
                         ELSE IF f.opt \/ (f.copt /\ m = "borsh") THEN a + 1
                         ELSE a + (IF f.t.k = "slice" THEN 0 ELSE MinW(m, f.t)), 0, t.f)
    [] t.k \in {"iface","unsup","ifc"} -> 0
    [] OTHER -> 1

\* The values the round-trip guarantee covers.
RECURSIVE InDom(_,_,_)
DomFields(m, t, v) ==
  LET so == FoldLeft(LAMBDA acc, i : IF t.f[i].so = "" \/ t.f[i].skip THEN acc
                         ELSE (t.f[i].so :> SizeCount(t.f[i].t, v[i])) @@ acc,
                     <<>>, [i \in 1..Len(t.f) |-> i])
      okcount(f, w) == LET c == SoOf(so, f.n) IN
        c = -1 \/ IF f.t.k = "slice" THEN c >= 0 /\ c <= Len(w.s)
                  ELSE IF f.t.k = "ptr" /\ f.t.e.k = "slice" THEN w # <<>> /\ c >= 0 /\ c <= Len(w[1].s)
                  ELSE TRUE
  IN \A i \in 1..Len(t.f) :
       LET f == t.f[i] IN
       f.skip \/ f.unexp \/ f.t.k = "iface"
       \/ ((f.opt \/ (f.copt /\ m = "borsh")) /\ IsZero(f.t, v[i]) /\ SoOf(so, f.n) = -1)
       \/ (okcount(f, v[i]) /\ InDom(m, f.t, v[i]))
InDom(m, t, v) ==
  CASE t.k = "f32" -> ~(m = "borsh" /\ IsNaN32(v))
    [] t.k \in {"f64","JSONFloat64"} -> ~(m = "borsh" /\ IsNaN64(v))
    [] t.k = "str" -> m = "c16" => Len(v) <= 65535
    [] t.k = "SafeString" -> m = "c16" => Len(v) <= 65535
    [] t.k = "HexBytes" -> m = "c16" => Len(v.s) <= 65535
    [] t.k = "ptr" -> v # <<>> /\ (IF t.e.k = "CustP" THEN v[1][1][2] \notin {190, 222} ELSE InDom(m, t.e, v[1]))
    [] t.k = "arr" -> UKind(t.e) > 0 \/ \A i \in 1..Len(v) : InDom(m, t.e, v[i])
    [] t.k = "slice" -> (m = "c16" => Len(v.s) <= 65535)
                        /\ (UKind(t.e) > 0 \/ ((v.s = <<>> \/ MinW(m, t.e) > 0)
                                               /\ \A i \in 1..Len(v.s) : InDom(m, t.e, v.s[i])))
    [] t.k = "map" -> (m = "c16" => Len(v.m) <= 65535)
                      /\ (m = "borsh" => SortableKey(t.key) \/ Len(v.m) < 2)
                      /\ \A i \in 1..Len(v.m) : InDom(m, t.key, v.m[i][1]) /\ InDom(m, t.e, v.m[i][2])
                                               /\ Proj(m, t.key, v.m[i][1]) = v.m[i][1]
    [] t.k = "struct" ->
         IF t.enum /\ m = "borsh"
         THEN v[1][1] + 2 <= Len(t.f) /\ InDom(m, t.f[v[1][1]+2].t, v[v[1][1]+2])
         ELSE DomFields(m, t, v)
    [] t.k = "unsup" -> FALSE
    [] t.k = "ifc" -> v = <<>>
    [] t.k = "CustA" -> v[1] # <<173, 222>> /\ v[1] # <<239, 190>> /\ (m = "c16" => Len(v[2]) <= 65535)
    [] t.k = "CustP" -> FALSE
    [] t.k = "CustN" -> m = "c16" => Len(v[2].s) <= 65535
    [] OTHER -> TRUE

\* Does the encoding leave the order of some map's entries open?
RECURSIVE FreeOrder(_,_,_)
FreeOrder(m, t, v) ==
  m # "borsh" /\
  CASE t.k = "ptr" -> v # <<>> /\ FreeOrder(m, t.e, v[1])
    [] t.k = "arr" -> UKind(t.e) = 0 /\ \E i \in 1..Len(v) : FreeOrder(m, t.e, v[i])
    [] t.k = "slice" -> UKind(t.e) = 0 /\ \E i \in 1..Len(v.s) : FreeOrder(m, t.e, v.s[i])
    [] t.k = "map" -> Len(v.m) > 1 \/ \E i \in 1..Len(v.m) :
                         FreeOrder(m, t.key, v.m[i][1]) \/ FreeOrder(m, t.e, v.m[i][2])
    [] t.k = "struct" -> \E i \in 1..Len(v) : ~t.f[i].skip /\ FreeOrder(m, t.f[i].t, v[i])
    [] OTHER -> FALSE

\* A nil pointer where the format has no way to say so (not under an option
\* flag): what is written then is left open in the Bin and CompactU16 formats,
\* and in Borsh, which writes the zero value, for types with their own codec.
CodecK == OrdLibK \cup VarK \cup CustKs \cup {"Bool","SafeString","HexBytes","JSONFloat64"}
RECURSIVE BareNil(_,_,_)
BareNil(m, t, v) ==
  CASE t.k = "ptr" -> IF v = <<>> THEN m # "borsh" \/ t.e.k \in CodecK \/ BareNil(m, t.e, Zero(t.e))
                      ELSE BareNil(m, t.e, v[1])
    [] t.k = "ifc" -> v # <<>> /\ BareNil(m, t.e, v[1])
    [] t.k = "arr" -> UKind(t.e) = 0 /\ \E i \in 1..Len(v) : BareNil(m, t.e, v[i])
    [] t.k = "slice" -> UKind(t.e) = 0 /\ \E i \in 1..Len(v.s) : BareNil(m, t.e, v.s[i])
    [] t.k = "map" -> \E i \in 1..Len(v.m) : BareNil(m, t.key, v.m[i][1]) \/ BareNil(m, t.e, v.m[i][2])
    [] t.k = "struct" ->
         IF t.enum /\ m = "borsh"
         THEN v[1][1] + 2 <= Len(t.f) /\ BareNil(m, t.f[v[1][1]+2].t, v[v[1][1]+2])
         ELSE \E i \in 1..Len(v) : LET f == t.f[i] IN
                ~f.skip /\ ~f.unexp /\ ~((f.opt \/ (f.copt /\ m = "borsh")) /\ IsZero(f.t, v[i])) /\ BareNil(m, f.t, v[i])
    [] OTHER -> FALSE

SameBag(a, b) == SortSeq(a, LAMBDA x, y : x < y) = SortSeq(b, LAMBDA x, y : x < y)

\* out is an encoding of v: the bytes themselves, or, where map order is
\* open, a rearrangement of them that denotes v.
IsEncoding(m, t, v, out) ==
  LET e == Enc(m, t, v) IN
  e.ok /\ (out = e.b
           \/ (FreeOrder(m, t, v) /\ Len(out) = Len(e.b) /\ SameBag(out, e.b)
               /\ (~InDom(m, t, v) \/
                   LET r == DecFresh(m, t, out, 0)
                   IN r.ok /\ r.p = Len(out) /\ SameV(t, r.v, Proj(m, t, v)))))
============================================================================
