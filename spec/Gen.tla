-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* The bounded design model of the wire formats, and the source of the     *)
(* scenarios replayed against the implementation.                          *)
(*                                                                         *)
(* $VP_FAMS names the families of Samples and the stride (every how-many-th *)
(* scenario is model checked); all scenarios go to $VP_OUT.                 *)
(*                                                                         *)
(* A behaviour takes one value in one format, encodes it, lets the         *)
(* environment cut the bytes short anywhere or put others behind them, and *)
(* decodes, into a fresh destination or over an older value.               *)
(***************************************************************************)
EXTENDS Samples, Json, IOUtils

Par == ndJsonDeserialize(IOEnv.VP_FAMS)[1]
S == FlattenSeq(MapSeq(Par.fams, LAMBDA n : Family(n)))
ASSUME ndJsonSerialize(IOEnv.VP_OUT, S)

Rest == <<255, 1, 128>>

VARIABLES sc, m, stage, buf, res
vars == <<sc, m, stage, buf, res>>

None == [ok |-> FALSE, p |-> 0, v |-> <<>>]

Init == /\ sc \in {i \in 1..Len(S) : i % Par.stride = Par.phase % Par.stride}
        /\ m \in Modes /\ stage = "val" /\ buf = <<>> /\ res = None

Ty == S[sc].t
Va == S[sc].v

Encode == /\ stage = "val"
          /\ LET e == Enc(m, Ty, Va) IN
             IF e.ok THEN stage' = "enc" /\ buf' = e.b ELSE stage' = "refused" /\ buf' = <<>>
          /\ UNCHANGED <<sc, m, res>>
Cut == /\ stage = "enc"
       /\ \E k \in 0..(Len(buf)-1) : buf' = SubSeq(buf, 1, k)
       /\ stage' = "cut" /\ UNCHANGED <<sc, m, res>>
More == /\ stage = "enc" /\ buf' = buf \o Rest /\ stage' = "long" /\ UNCHANGED <<sc, m, res>>
Decode == /\ stage \in {"enc", "cut", "long"}
          /\ res' = DecFresh(m, Ty, buf, 0)
          /\ stage' = (CASE stage = "enc" -> "denc" [] stage = "cut" -> "dcut" [] OTHER -> "dlong")
          /\ UNCHANGED <<sc, m, buf>>
\* over an older value of the same type
Over == /\ stage = "enc"
        /\ \E k \in 1..Len(Vals(Ty)) : k <= 2 /\ res' = Dec(m, Ty, buf, 0, Vals(Ty)[k])
        /\ stage' = "dover" /\ UNCHANGED <<sc, m, buf>>
Next == Encode \/ Cut \/ More \/ Decode \/ Over
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
RECURSIVE HasTag(_,_)
HasTag(t, x) ==
  CASE t.k \in {"ptr","arr","slice"} -> HasTag(t.e, x)
    [] t.k = "map" -> HasTag(t.key, x) \/ HasTag(t.e, x)
    [] t.k = "struct" -> \E i \in 1..Len(t.f) :
           (x = "ext" /\ t.f[i].ext) \/ (x = "skip" /\ (t.f[i].skip \/ t.f[i].unexp \/ t.f[i].t.k = "iface" \/ (t.enum /\ i > 1)))
           \/ HasTag(t.f[i].t, x)
    [] OTHER -> x = "skip" /\ t.k \in {"iface"}

Dom == InDom(m, Ty, Va)

\* decoding what was encoded gives the value back and consumes all of it
RoundTrip == (stage = "denc" /\ Dom) => res.ok /\ res.p = Len(buf) /\ SameV(Ty, res.v, Proj(m, Ty, Va))
\* a value of the domain is never refused
Accepts == Dom => stage # "refused"
\* every proper prefix is refused (but for trailing extensions)
Truncated == (stage = "dcut" /\ Dom /\ ~HasTag(Ty, "ext")) => ~res.ok
\* what follows in the stream does not matter
Framed == (stage = "dlong" /\ Dom /\ ~HasTag(Ty, "ext")) =>
             res.ok /\ res.p = Len(buf) - Len(Rest) /\ SameV(Ty, res.v, Proj(m, Ty, Va))
\* the destination's past does not matter
Overwrites == (stage = "dover" /\ Dom /\ ~HasTag(Ty, "ext") /\ ~HasTag(Ty, "skip")) =>
                 res.ok /\ SameV(Ty, res.v, Proj(m, Ty, Va))
\* the cursor stays inside the buffer
Bounded == res.ok => res.p >= 0 /\ res.p <= Len(buf)
\* Borsh maps are ascending
Ascending == (stage = "denc" /\ Dom /\ m = "borsh" /\ Ty.k = "map") =>
                \A i \in 1..(Len(res.v.m) - 1) : KeyLess(Ty.key, res.v.m[i][1], res.v.m[i+1][1])
\* decoding and encoding again gives the same bytes (no second encoding of
\* a value is produced by the encoder)
Canonical == (stage = "denc" /\ Dom /\ res.ok /\ ~FreeOrder(m, Ty, Va) /\ ~HasTag(Ty, "skip")
              /\ SameV(Ty, Va, Proj(m, Ty, Va))) =>
                Enc(m, Ty, res.v).b = buf
============================================================================
