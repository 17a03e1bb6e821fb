------------------------------ MODULE Variant ------------------------------
(***************************************************************************)
(* Variants: a type id in one of five encodings followed by the payload of *)
(* the type registered under it.  A definition is an encoding and a list   *)
(* of types [name, t]; ids are eight bytes.                                *)
(***************************************************************************)
EXTENDS Wire, Text

Pad8(b) == Ext(b, 8, 0)

\* id of the i-th (from 0) registered type
IdOf(enc, i, name) ==
  CASE enc = "uvarint" -> Pad8(UvarintNat(i))
    [] enc = "u32" -> Pad8(LEn(i, 4))
    [] enc = "u8" -> Pad8(<<i % 256>>)
    [] enc = "anchor" -> Sighash(Global, name)
    [] enc = "none" -> Zeros(8)

\* reading an id: position after it and the id
ReadId(enc, D, p) ==
  CASE enc = "uvarint" ->
         LET r == DecUvarint(D, p) IN
         IF ~r.ok \/ ~AllZero(SubSeq(r.v, 5, 8)) THEN DFail ELSE DOk(r.p, Pad8(Uvarint(r.v)))
    [] enc = "u32" -> LET r == DecFix(D, p, 4, FALSE) IN IF r.ok THEN DOk(r.p, Pad8(r.v)) ELSE DFail
    [] enc = "u8" -> LET r == DecFix(D, p, 1, FALSE) IN IF r.ok THEN DOk(r.p, Pad8(r.v)) ELSE DFail
    [] enc = "anchor" -> DecFix(D, p, 8, FALSE)
    [] enc = "none" -> DOk(p, Zeros(8))

\* types: the definition repeats the base list n times over: type i has
\* schema base[i mod len] and the i-th name
Lookup(enc, names, id) ==
  LET hit == {i \in 1..Len(names) : IdOf(enc, i-1, names[i]) = id} IN
  IF hit = {} THEN 0 ELSE CHOOSE i \in hit : \A j \in hit : j <= i

DecVariant(m, enc, names, base, D, p) ==
  LET r == ReadId(enc, D, p) IN
  IF ~r.ok THEN [ok |-> FALSE]
  ELSE LET i == Lookup(enc, names, r.v) IN
       IF i = 0 THEN [ok |-> FALSE]
       ELSE LET t == base[((i-1) % Len(base)) + 1]
                d == DecFresh(m, t, D, r.p)
            IN IF ~d.ok THEN [ok |-> FALSE]
               ELSE [ok |-> TRUE, id |-> r.v, i |-> i, t |-> t, v |-> d.v, p |-> d.p]
============================================================================
