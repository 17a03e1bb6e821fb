-------------------------------- MODULE Pure --------------------------------
(***************************************************************************)
(* The value-level parts of the specification, checked over all values of  *)
(* bounded domains: compact-u16, varints, decimal and JSON texts, case     *)
(* conversion and SHA-256.  $VP_FAMS selects the domains; when the         *)
(* compact-u16 domain is selected its whole table goes to $VP_OUT.          *)
(***************************************************************************)
EXTENDS Num, Text, Variant, Json, IOUtils

Par == ndJsonDeserialize(IOEnv.VP_FAMS)[1]
Sel == {Par.doms[i] : i \in 1..Len(Par.doms)}
ASSUME "compact" \in Sel =>
  ndJsonSerialize(IOEnv.VP_OUT, <<[t |-> [i \in 1..65536 |-> CompactU16(i-1)]]>>)

\* 64-bit patterns: a byte at every place over background bytes
Pats(w) == {[i \in 1..w |-> IF i = k THEN b ELSE IF i < k THEN lo ELSE hi] :
             k \in 1..w, b \in {0,1,2,9,63,64,127,128,129,200,254,255}, lo \in {0,255}, hi \in {0,255}}
\* characters for case conversion: letters of both cases, a digit, a
\* separator, non-ASCII letters of one, two and three bytes
Ch(c, an, up, lo, tl, tu) == [c |-> c, an |-> an, up |-> up, lo |-> lo, tl |-> tl, tu |-> tu]
Alph == <<Ch(97,TRUE,FALSE,TRUE,97,65), Ch(66,TRUE,TRUE,FALSE,98,66), Ch(49,TRUE,FALSE,FALSE,49,49),
          Ch(95,FALSE,FALSE,FALSE,95,95), Ch(233,TRUE,FALSE,TRUE,233,201), Ch(8486,TRUE,TRUE,FALSE,969,8486)>>
RECURSIVE Strs(_)
Strs(n) == IF n = 0 THEN {<<>>} ELSE LET s == Strs(n-1) IN s \cup {Append(x, Alph[i]) : x \in {y \in s : Len(y) = n-1}, i \in 1..Len(Alph)}
\* the characters a converted name is made of
Back(cs) == [i \in 1..Len(cs) |->
   IF cs[i] = 95 THEN Alph[4] ELSE IF cs[i] = 49 THEN Alph[3]
   ELSE IF cs[i] = 97 THEN Alph[1] ELSE IF cs[i] = 98 THEN Ch(98,TRUE,FALSE,TRUE,98,66)
   ELSE IF cs[i] = 233 THEN Alph[5] ELSE Ch(969,TRUE,FALSE,TRUE,969,937)]

FmtB == {0, 1, 9, 10, 99, 100, 255}
FmtDom == {<<>>} \cup {<<a>> : a \in FmtB} \cup {<<a, b>> : a \in FmtB, b \in FmtB}
           \cup {<<a, b, c>> : a \in {1, 10}, b \in FmtB, c \in {0, 255}}

VARIABLES dom, x
Init ==
  \/ dom = "compact" /\ dom \in Sel /\ x \in 0..65535
  \/ dom = "string3" /\ dom \in Sel /\ x \in {<<a, b>> : a \in 0..255, b \in 0..255}
  \/ dom = "varint" /\ dom \in Sel /\ x \in Pats(8)
  \/ dom = "dec128" /\ dom \in Sel /\ x \in Pats(16)
  \/ dom = "json64" /\ dom \in Sel /\ x \in Pats(8)
  \/ dom = "case" /\ dom \in Sel /\ x \in Strs(Par.len)
  \/ dom = "fmt" /\ dom \in Sel /\ x \in FmtDom
  \/ dom = "sha" /\ dom \in Sel /\ x \in 0..Par.len
Next == UNCHANGED <<dom, x>>
Spec == Init /\ [][Next]_<<dom, x>>

CompactLaw == dom = "compact" =>
  LET e == CompactU16(x)
      d == DecCompactU16(e \o <<255>>, 0)
  IN Len(e) \in 1..3 /\ d.ok /\ d.n = x /\ d.p = Len(e)
     /\ \A k \in 0..(Len(e)-1) : ~DecCompactU16(SubSeq(e, 1, k), 0).ok
\* every accepted string is the one encoding of its value
Canon(D) == LET d == DecCompactU16(D, 0) IN d.ok => CompactU16(d.n) = SubSeq(D, 1, d.p)
StringLaw == dom = "string3" =>
  /\ Canon(<<x[1]>>) /\ Canon(x)
  /\ \A c \in (IF Par.len > 5 THEN 0..255 ELSE {0,1,2,3,4,5,7,127,128,129,255}) : Canon(Append(x, c))
VarLaw == dom = "varint" =>
  LET u == Uvarint(x)
      s == Varint(x)
      ru == DecUvarint(u \o <<1>>, 0)
      rs == DecVarint(s \o <<1>>, 0)
  IN /\ ru.ok /\ ru.v = x /\ ru.p = Len(u) /\ Len(u) <= 10
     /\ rs.ok /\ rs.v = x /\ rs.p = Len(s)
     /\ \A k \in 0..(Len(u)-1) : ~DecUvarint(SubSeq(u, 1, k), 0).ok
DecLaw == dom = "dec128" =>
  LET d == Decimal(x)
      r == ParseDec(d, 16)
      s == SDecimal(x)
      t == IntVal(s, 16)
  IN CanonNat(d) /\ ~r.over /\ r.b = x /\ CanonInt(s) /\ ~t.over /\ t.b = x
     /\ JsonIn("Uint128", JsonOut("Uint128", x)) = Must(x)
     /\ Reverse(Reverse(x)) = x /\ UnHex(HexOf(x)) = x
JsonLaw == dom = "json64" =>
  /\ JsonIn("Uint64", JsonOut("Uint64", x)) = Must(x)
  /\ JsonIn("Int64", JsonOut("Int64", x)) = Must(x)
  /\ JsonIn("Uint64", Quote(Decimal(x))) = Must(x)
  /\ JsonIn("HexBytes", JsonOut("HexBytes", x)) = Must(x)
\* letters and digits survive; snake case is stable
CaseLaw == dom = "case" =>
  /\ SelectSeq(Snake(x), LAMBDA c : c # 95) = Folded(x)
  /\ Snake(Back(Snake(x))) = Snake(x)
  /\ \A i \in 1..(Len(Snake(x))-1) : ~(Snake(x)[i] = 95 /\ Snake(x)[i+1] = 95)
  /\ Len(Pascal(x)) = Len(Folded(x))
\* the printed form determines the bytes and where each write began
FmtLaw == dom = "fmt" => \A y \in FmtDom :
  /\ FmtBytes(x) = FmtBytes(y) => x = y
  /\ Braced(x) = Braced(y) => x = y
  /\ FmtRecord(<<97>>, <<x, y>>) # FmtRecord(<<97>>, <<x \o y>>)
ShaLaw == dom = "sha" => LET h == Sha256([i \in 1..x |-> (i * 7) % 256]) IN
  Len(h) = 32 /\ \A i \in 1..32 : h[i] \in 0..255
ASSUME "sha" \in Sel =>
  /\ SubSeq(Sha256(<<97,98,99>>), 1, 8) = <<186,120,22,191,143,1,207,234>>
  /\ SubSeq(Sha256(<<>>), 1, 8) = <<227,176,196,66,152,252,28,20>>
============================================================================
