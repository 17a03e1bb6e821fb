------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte-level vocabulary of the codec: byte strings are sequences of       *)
(* 0..255, numbers of any width are little-endian byte tuples (TLC         *)
(* integers have 32 bits, the codec's go up to 128).                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Byte == 0..255

\* Any count at or above HUGE is "more than any buffer we look at holds".
HUGE == 1073741824

Pow2 == [i \in 0..30 |-> 2^i]

Zeros(n) == [i \in 1..n |-> 0]

\* little-endian, n < 2^31, any width
LEn(n, w) == [i \in 1..w |-> IF i <= 4 THEN (n \div Pow2[8*(i-1)]) % 256 ELSE 0]

\* Value of a little-endian tuple, saturating at HUGE.
ToNat(bs) ==
  IF \E i \in 1..Len(bs) : (i > 4 /\ bs[i] # 0) \/ (i = 4 /\ bs[i] >= 64) THEN HUGE
  ELSE LET g(i) == IF i <= Len(bs) THEN bs[i] * Pow2[8*(i-1)] ELSE 0
       IN g(1) + g(2) + g(3) + g(4)

AllZero(bs) == \A i \in 1..Len(bs) : bs[i] = 0

Order(bs, big) == IF big THEN Reverse(bs) ELSE bs

SignBit(bs) == bs[Len(bs)] \div 128

\* sign- or zero-extend / truncate a little-endian tuple
Ext(bs, w, fill) == [i \in 1..w |-> IF i <= Len(bs) THEN bs[i] ELSE fill]
SExt(bs, w) == Ext(bs, w, IF SignBit(bs) = 1 THEN 255 ELSE 0)
ZExt(bs, w) == Ext(bs, w, 0)
Trunc(bs, w) == SubSeq(bs, 1, w)

\* unsigned comparison of equally wide little-endian tuples
RECURSIVE ULessAt(_,_,_)
ULessAt(a, b, i) == IF i = 0 THEN FALSE
                    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE ULessAt(a, b, i-1)
ULess(a, b) == ULessAt(a, b, Len(a))
SLess(a, b) == IF SignBit(a) # SignBit(b) THEN SignBit(a) = 1 ELSE ULess(a, b)

\* IEEE-754 ordering (neither is NaN): sign-magnitude
FNeg(a) == SignBit(a) = 1
FMag(a) == [a EXCEPT ![Len(a)] = a[Len(a)] % 128]
FLess(a, b) ==
  IF AllZero(FMag(a)) /\ AllZero(FMag(b)) THEN FALSE
  ELSE IF FNeg(a) # FNeg(b) THEN FNeg(a)
  ELSE IF FNeg(a) THEN ULess(FMag(b), FMag(a)) ELSE ULess(FMag(a), FMag(b))

\* bytewise (lexicographic) comparison of byte strings
RECURSIVE LexAt(_,_,_)
LexAt(a, b, i) == IF i > Len(b) THEN FALSE
                  ELSE IF i > Len(a) THEN TRUE
                  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexAt(a, b, i+1)
LexLess(a, b) == LexAt(a, b, 1)

IsNaN32(v) == v[4] % 128 = 127 /\ v[3] >= 128 /\ ~(v[3] = 128 /\ v[2] = 0 /\ v[1] = 0)
IsNaN64(v) == v[8] % 128 = 127 /\ v[7] >= 240 /\
              ~(v[7] = 240 /\ \A i \in 1..6 : v[i] = 0)
\* a float32 that passes through a float64 has its quiet bit set
Quiet32(v) == IF IsNaN32(v) /\ v[3] < 192 THEN [v EXCEPT ![3] = v[3] + 64] ELSE v

---------------------------------------------------------------------------
\* bits, least significant first
Bits(bs) == [i \in 1..8*Len(bs) |-> (bs[((i-1) \div 8) + 1] \div Pow2[(i-1) % 8]) % 2]
BitsToBytes(bits, w) ==
  LET bit(i) == IF i <= Len(bits) THEN bits[i] ELSE 0
  IN [k \in 1..w |-> bit(8*k-7) + 2*bit(8*k-6) + 4*bit(8*k-5) + 8*bit(8*k-4)
                    + 16*bit(8*k-3) + 32*bit(8*k-2) + 64*bit(8*k-1) + 128*bit(8*k)]

\* LEB128 of a little-endian tuple (at most 8 bytes wide)
Uvarint(bs) ==
  LET bits == Bits(bs)
      bit(i) == IF i <= Len(bits) THEN bits[i] ELSE 0
      grp(k) == bit(7*k+1) + 2*bit(7*k+2) + 4*bit(7*k+3) + 8*bit(7*k+4)
                + 16*bit(7*k+5) + 32*bit(7*k+6) + 64*bit(7*k+7)
      G == [k \in 0..9 |-> grp(k)]
      nz == {k \in 0..9 : G[k] # 0}
      last == IF nz = {} THEN 0 ELSE CHOOSE k \in nz : \A j \in nz : j <= k
  IN [k \in 1..(last+1) |-> IF k-1 < last THEN G[k-1] + 128 ELSE G[k-1]]

RECURSIVE UvarintNat(_)
UvarintNat(n) == IF n < 128 THEN <<n>> ELSE <<(n % 128) + 128>> \o UvarintNat(n \div 128)

ZigZag(bs) == LET b == Bits(bs)
                  s == b[64]
              IN BitsToBytes([i \in 1..64 |-> IF i = 1 THEN s ELSE (b[i-1] + s) % 2], 8)
UnZigZag(bs) == LET u == Bits(bs)
                    s == u[1]
                IN BitsToBytes([i \in 1..64 |-> IF i = 64 THEN s ELSE (u[i+1] + s) % 2], 8)
Varint(bs) == Uvarint(ZigZag(SExt(bs, 8)))

\* Reading a LEB128 number at offset p of D (p = bytes already consumed):
\* at most ten bytes, the tenth at most 1; non-minimal forms are accepted.
DecUvarint(D, p) ==
  LET stop == {j \in 1..10 : p + j <= Len(D) /\ D[p+j] < 128}
  IN IF stop = {} THEN [ok |-> FALSE, p |-> p, v |-> Zeros(8)]
     ELSE LET n == CHOOSE j \in stop : \A i \in stop : j <= i
          IN IF \E j \in 1..(n-1) : p + j > Len(D) THEN [ok |-> FALSE, p |-> p, v |-> Zeros(8)]
             ELSE IF n = 10 /\ D[p+10] > 1 THEN [ok |-> FALSE, p |-> p, v |-> Zeros(8)]
             ELSE [ok |-> TRUE, p |-> p + n,
                   v |-> BitsToBytes([i \in 1..7*n |->
                           (D[p + ((i-1) \div 7) + 1] \div Pow2[(i-1) % 7]) % 2], 8)]
DecVarint(D, p) == LET r == DecUvarint(D, p) IN [r EXCEPT !.v = UnZigZag(r.v)]

---------------------------------------------------------------------------
\* compact-u16: one to three bytes, minimal
CompactU16(n) == IF n < 128 THEN <<n>>
                 ELSE IF n < 16384 THEN <<(n % 128) + 128, n \div 128>>
                 ELSE <<(n % 128) + 128, ((n \div 128) % 128) + 128, n \div 16384>>

DecCompactU16(D, p) ==
  LET rem == Len(D) - p
      bad == [ok |-> FALSE, p |-> p, n |-> 0]
  IN IF rem < 1 THEN bad
     ELSE IF D[p+1] < 128 THEN [ok |-> TRUE, p |-> p+1, n |-> D[p+1]]
     ELSE IF rem < 2 \/ D[p+2] = 0 THEN bad
     ELSE IF D[p+2] < 128 THEN [ok |-> TRUE, p |-> p+2, n |-> (D[p+1]-128) + 128*D[p+2]]
     ELSE IF rem < 3 \/ D[p+3] = 0 \/ D[p+3] > 3 THEN bad
     ELSE [ok |-> TRUE, p |-> p+3, n |-> (D[p+1]-128) + 128*(D[p+2]-128) + 16384*D[p+3]]

---------------------------------------------------------------------------
\* UTF-8.  Width of the valid sequence starting at s[i] (0 if invalid).
Cont(b) == b >= 128 /\ b <= 191
U8Width(s, i) ==
  LET b == s[i]
      has(k) == i + k <= Len(s)
  IN IF b < 128 THEN 1
     ELSE IF b >= 194 /\ b <= 223 THEN (IF has(1) /\ Cont(s[i+1]) THEN 2 ELSE 0)
     ELSE IF b >= 224 /\ b <= 239 THEN
        (IF has(2) /\ Cont(s[i+1]) /\ Cont(s[i+2])
            /\ (b = 224 => s[i+1] >= 160) /\ (b = 237 => s[i+1] <= 159) THEN 3 ELSE 0)
     ELSE IF b >= 240 /\ b <= 244 THEN
        (IF has(3) /\ Cont(s[i+1]) /\ Cont(s[i+2]) /\ Cont(s[i+3])
            /\ (b = 240 => s[i+1] >= 144) /\ (b = 244 => s[i+1] <= 143) THEN 4 ELSE 0)
     ELSE 0

Replacement == <<239, 191, 189>>

\* Byte i is inside the valid sequence that starts d bytes before it.  (The
\* inner bytes of a valid sequence never start one, so no scan is needed.)
InsideUtf(s, i) == \E d \in 1..3 : i > d /\ Cont(s[i]) /\ U8Width(s, i-d) > d
FixUtf(s) ==
  IF \A i \in 1..Len(s) : s[i] < 128 THEN s
  ELSE FlattenSeq([i \in 1..Len(s) |->
         LET w == U8Width(s, i) IN
         IF w > 0 THEN SubSeq(s, i, i+w-1) ELSE IF InsideUtf(s, i) THEN <<>> ELSE Replacement])

RECURSIVE ValidFrom(_,_)
ValidFrom(s, i) == IF i > Len(s) THEN TRUE
                   ELSE U8Width(s, i) # 0 /\ ValidFrom(s, i + U8Width(s, i))
ValidUtf8(s) == IF \A i \in 1..Len(s) : s[i] < 128 THEN TRUE ELSE ValidFrom(s, 1)

---------------------------------------------------------------------------
\* decimal digits (most significant first, as digits 0..9) of a LE tuple
\* digits are kept least significant first while building
RECURSIVE MulAdd(_,_,_)
MulAdd(ds, c, i) ==  \* ds * 256 + c, ds least significant first
  IF i > Len(ds) THEN (IF c = 0 THEN <<>> ELSE <<c % 10>> \o MulAdd(ds, c \div 10, i))
  ELSE <<(ds[i]*256 + c) % 10>> \o MulAdd(ds, (ds[i]*256 + c) \div 10, i+1)
RECURSIVE DecDigits(_,_)
DecDigits(bs, i) ==  \* bs[i..] folded from the most significant byte
  IF i > Len(bs) THEN <<>> ELSE MulAdd(DecDigits(bs, i+1), bs[i], 1)
Decimal(bs) == LET ds == DecDigits(bs, 1) IN IF ds = <<>> THEN <<48>> ELSE [i \in 1..Len(ds) |-> 48 + ds[Len(ds)+1-i]]

\* two's complement negation
RECURSIVE NegFrom(_,_,_)
NegFrom(bs, i, carry) == IF i > Len(bs) THEN <<>>
   ELSE LET x == (255 - bs[i]) + carry IN <<x % 256>> \o NegFrom(bs, i+1, x \div 256)
Neg(bs) == NegFrom(bs, 1, 1)
SDecimal(bs) == IF SignBit(bs) = 1 THEN <<45>> \o Decimal(Neg(bs)) ELSE Decimal(bs)

\* value of a decimal digit string (ASCII) as w-byte LE tuple, with overflow flag
RECURSIVE Mul10Add(_,_,_)
Mul10Add(bs, c, i) == IF i > Len(bs) THEN [b |-> <<>>, c |-> c]
   ELSE LET x == bs[i]*10 + c
            r == Mul10Add(bs, x \div 256, i+1)
        IN [b |-> <<x % 256>> \o r.b, c |-> r.c]
ParseDec(ds, w) ==
  FoldLeft(LAMBDA acc, d : IF acc.over THEN acc
             ELSE LET r == Mul10Add(acc.b, d - 48, 1) IN [b |-> r.b, over |-> r.c # 0],
           [b |-> Zeros(w), over |-> FALSE], ds)

Hex1(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexOf(bs) == FlattenSeq([i \in 1..Len(bs) |-> <<Hex1(bs[i] \div 16), Hex1(bs[i] % 16)>>])
============================================================================
