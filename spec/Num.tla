-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* 128-bit numbers and the JSON texts of the helper types.                 *)
(***************************************************************************)
EXTENDS Wire

Quote(s) == <<34>> \o s \o <<34>>
IsDigit(c) == c >= 48 /\ c <= 57
Digits(s) == s # <<>> /\ \A i \in 1..Len(s) : IsDigit(s[i])
\* no redundant leading zero
CanonNat(s) == Digits(s) /\ (Len(s) = 1 \/ s[1] # 48)
CanonInt(s) == CanonNat(s) \/ (Len(s) > 1 /\ s[1] = 45 /\ CanonNat(Tail(s)))
Quoted(x) == Len(x) >= 2 /\ x[1] = 34 /\ x[Len(x)] = 34
Inner(x) == SubSeq(x, 2, Len(x) - 1)
\* inside the quotes nothing needs escaping
PlainQuoted(x) == Quoted(x) /\ \A i \in 2..(Len(x)-1) : x[i] # 34 /\ x[i] # 92 /\ x[i] >= 32 /\ x[i] < 127
HexDigit(c) == IsDigit(c) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
\* a JSON string may give any character by its number, \u0031 for 1: the same
\* text with every such escape of a plain ASCII character undone
EscAt(x, i) ==
  /\ i + 5 < Len(x) /\ x[i] = 92 /\ x[i+1] = 117 /\ x[i+2] = 48 /\ x[i+3] = 48
  /\ HexDigit(x[i+4]) /\ HexDigit(x[i+5])
  /\ LET c == 16 * HexVal(x[i+4]) + HexVal(x[i+5]) IN c >= 32 /\ c < 127 /\ c \notin {34, 92}
RECURSIVE UnEscFrom(_,_)
UnEscFrom(x, i) ==
  IF i > Len(x) THEN <<>>
  ELSE IF EscAt(x, i) THEN <<16 * HexVal(x[i+4]) + HexVal(x[i+5])>> \o UnEscFrom(x, i + 6)
  ELSE <<x[i]>> \o UnEscFrom(x, i + 1)
UnEsc(x) == IF Quoted(x) THEN UnEscFrom(x, 1) ELSE x
HexText(s) == Len(s) % 2 = 0 /\ \A i \in 1..Len(s) : HexDigit(s[i])
UnHex(s) == [i \in 1..(Len(s) \div 2) |-> 16*HexVal(s[2*i-1]) + HexVal(s[2*i])]

\* signed value of a canonical integer text in w bytes
NatVal(s, w) == ParseDec(s, w)
IntVal(s, w) ==
  IF s[1] = 45
  THEN LET r == ParseDec(Tail(s), w) IN
       IF r.over THEN r
       ELSE IF AllZero(r.b) THEN r
       ELSE LET n == Neg(r.b) IN [b |-> n, over |-> SignBit(n) = 0]
  ELSE LET r == ParseDec(s, w) IN [r EXCEPT !.over = r.over \/ SignBit(r.b) = 1]

Num128(k, v) == IF k = "Int128" THEN SDecimal(v) ELSE Decimal(v)

\* JSON text produced
JsonOut(k, v) ==
  CASE k \in {"Uint128","Int128","Float128"} -> Quote(Decimal(v))
    [] k = "Uint64" -> IF ToNat(SubSeq(v,5,8)) # 0 THEN Quote(Decimal(v)) ELSE Decimal(v)
    [] k = "Int64" -> LET mag == IF SignBit(v) = 1 THEN Neg(v) ELSE v IN
                      IF ~AllZero(SubSeq(mag,5,8)) THEN Quote(SDecimal(v)) ELSE SDecimal(v)
    [] k = "HexBytes" -> Quote(HexOf(v))

\* bits of a non-negative integer below 2^31 as an IEEE double
F64OfNat(n) ==
  IF n = 0 THEN Zeros(8)
  ELSE LET e == CHOOSE x \in 0..30 : Pow2[x] <= n /\ (x = 30 \/ n < Pow2[x+1])
           frac == n - Pow2[e]      \* e bits, to be placed at the top of 52
           bit(i) == IF i > 52 - e /\ i <= 52 THEN (frac \div Pow2[i - 1 - (52 - e)]) % 2 ELSE 0
           ex == 1023 + e
           bits == [i \in 1..64 |-> IF i <= 52 THEN bit(i)
                                    ELSE IF i <= 63 THEN (ex \div Pow2[i-53]) % 2 ELSE 0]
       IN BitsToBytes(bits, 8)

\* What reading a JSON text must give: "ok" with the value, "err", or "any".
Must(v) == [r |-> "ok", v |-> v]
MustErr == [r |-> "err", v |-> <<>>]
AnyJ == [r |-> "any", v |-> <<>>]
True4 == <<116,114,117,101>>
False5 == <<102,97,108,115,101>>
Null4 == <<110,117,108,108>>
\* a text that is certainly not a number in any notation
Garbage(s) == s = <<>> \/ \E i \in 1..Len(s) : s[i] \in {32, 33, 35, 36, 42, 44, 58, 59, 63, 71, 90, 103, 113, 122}
              \/ (Len(s) = 1 /\ s[1] = 45)

\* a text with something in it that no decimal integer has
NotInt(s) == \E i \in 1..Len(s) : ~IsDigit(s[i]) /\ s[i] \notin {43, 45}

JsonIn(k, x) ==
  CASE k \in {"Uint128","Int128","Float128"} ->
         IF PlainQuoted(x)
         THEN LET s == Inner(x) IN
              IF CanonNat(s) THEN LET r == NatVal(s, 16) IN IF r.over THEN MustErr ELSE Must(r.b)
              ELSE IF Len(s) > 1 /\ s[1] = 45 /\ CanonNat(Tail(s)) /\ s # <<45,48>> THEN MustErr
              ELSE IF Garbage(s) THEN MustErr
              ELSE IF Len(s) >= 2 /\ s[1] = 48 /\ s[2] \in {88, 120}
                   THEN IF Len(s) # 34 \/ ~HexText(SubSeq(s, 3, Len(s))) THEN MustErr ELSE Must(UnHex(SubSeq(s, 3, 34)))
              ELSE AnyJ
         ELSE IF x \in {True4, False5} \/ (x # <<>> /\ x[1] \in {91, 123}) THEN MustErr ELSE AnyJ
    [] k = "Uint64" ->
         LET s == IF PlainQuoted(x) THEN Inner(x) ELSE x IN
         IF CanonNat(s) THEN LET r == NatVal(s, 8) IN IF r.over THEN MustErr ELSE Must(r.b)
         ELSE IF CanonInt(s) /\ s # <<45,48>> THEN MustErr
         ELSE IF x \in {True4, False5} THEN MustErr
         ELSE IF PlainQuoted(x) /\ (Garbage(s) \/ NotInt(s)) THEN MustErr
         ELSE IF \E i \in 1..Len(s) : s[i] = 46 THEN MustErr ELSE AnyJ
    [] k = "Int64" ->
         LET s == IF PlainQuoted(x) THEN Inner(x) ELSE x IN
         IF CanonInt(s) THEN LET r == IntVal(s, 8) IN IF r.over THEN MustErr ELSE Must(r.b)
         ELSE IF x \in {True4, False5} THEN MustErr
         ELSE IF PlainQuoted(x) /\ (Garbage(s) \/ NotInt(s)) THEN MustErr
         ELSE IF \E i \in 1..Len(s) : s[i] = 46 THEN MustErr ELSE AnyJ
    [] k = "HexBytes" ->
         IF PlainQuoted(x) THEN (IF HexText(Inner(x)) THEN Must(UnHex(Inner(x))) ELSE MustErr)
         ELSE IF x \in {True4, False5} \/ Digits(x) THEN MustErr ELSE AnyJ
    [] k = "Bool" ->
         IF x = True4 THEN Must(TRUE) ELSE IF x = False5 THEN Must(FALSE)
         ELSE IF CanonInt(x) /\ Len(x) < 10 THEN Must(\E i \in 1..Len(x) : x[i] > 48)
         ELSE IF PlainQuoted(x) \/ (x # <<>> /\ x[1] \in {91, 123}) THEN MustErr ELSE AnyJ
    [] k = "JSONFloat64" ->
         LET s == IF PlainQuoted(x) THEN Inner(x) ELSE x
             mag == IF s # <<>> /\ s[1] = 45 THEN Tail(s) ELSE s
             neg == s # <<>> /\ s[1] = 45
             flip(b) == IF neg THEN [b EXCEPT ![8] = b[8] + 128] ELSE b
         IN IF CanonNat(mag) /\ Len(mag) <= 9 THEN Must(flip(F64OfNat(ToNat(ParseDec(mag, 4).b))))
            ELSE IF x \in {True4, False5} THEN MustErr
            ELSE IF PlainQuoted(x) /\ Garbage(s) THEN MustErr ELSE AnyJ

---------------------------------------------------------------------------
\* Printed forms of byte strings: "{1, 20, 255}(len=3)" and the recording
\* writer's listing "name:\n- 0: {1}(len=1)\n".
NatText(n) == Decimal(LEn(n, 8))
ByteText == [n \in 0..255 |-> NatText(n)]
CommaList(b) == FlattenSeq([i \in 1..Len(b) |-> IF i = 1 THEN ByteText[b[i]] ELSE <<44, 32>> \o ByteText[b[i]]])
Braced(b) == <<123>> \o CommaList(b) \o <<125>>
FmtBytes(b) == Braced(b) \o <<40, 108, 101, 110, 61>> \o NatText(Len(b)) \o <<41>>
FmtWrites(ws) == FlattenSeq([i \in 1..Len(ws) |-> <<45, 32>> \o NatText(i - 1) \o <<58, 32>> \o FmtBytes(ws[i]) \o <<10>>])
FmtRecord(name, ws) == (IF name = <<>> THEN <<>> ELSE name \o <<58, 10>>) \o FmtWrites(ws)
============================================================================
