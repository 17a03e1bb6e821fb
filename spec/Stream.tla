------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* An encoder over a writer that may fail: it takes a prefix of what it is  *)
(* given and reports an error, or takes a prefix and reports none.  Checks  *)
(* that what was delivered is always a prefix of what was meant, that the   *)
(* count is right and that a loss is reported.                              *)
(***************************************************************************)
EXTENDS Ops

Modes3 == Modes
\* operations with their arguments, small
Alphabet == {
  [f |-> "u8", v |-> <<7>>], [f |-> "bool", v |-> TRUE],
  [f |-> "u16", v |-> <<1,2>>, big |-> TRUE], [f |-> "u32", v |-> <<1,2,3,4>>, big |-> FALSE],
  [f |-> "uvarint", v |-> <<128,1,0,0,0,0,0,0>>], [f |-> "varint", v |-> <<255,255,255,255,255,255,255,255>>],
  [f |-> "write", v |-> <<9,8,7>>], [f |-> "write", v |-> <<>>],
  [f |-> "bytes", pre |-> TRUE, v |-> <<5,5>>], [f |-> "string", v |-> <<97>>], [f |-> "rust", v |-> <<97,98>>],
  [f |-> "cu16", v |-> <<0,0,1,0,0,0,0,0>>], [f |-> "len", v |-> <<200,0,0,0,0,0,0,0>>],
  [f |-> "f32", v |-> <<0,0,192,127>>, big |-> FALSE]}

CONSTANT MaxOps
VARIABLES m, meant, got, w, lost, told, n
vars == <<m, meant, got, w, lost, told, n>>
Init == m \in Modes3 /\ meant = <<>> /\ got = <<>> /\ w = 0 /\ lost = FALSE /\ told = FALSE /\ n = 0
\* the caller stops at the first error it is told about
Put(a) ==
  /\ ~told /\ n < MaxOps /\ n' = n + 1
  /\ LET e == WriteOp(m, a) IN
     IF ~e.ok THEN told' = TRUE /\ UNCHANGED <<meant, got, w, lost>>    \* refused: nothing written
     ELSE /\ meant' = meant \o e.b
          /\ \E j \in 0..Len(e.b) :
               /\ got' = got \o SubSeq(e.b, 1, j) /\ w' = w + j
               /\ lost' = (j < Len(e.b)) /\ told' = (j < Len(e.b))
  /\ UNCHANGED m
Next == \E a \in Alphabet : Put(a)
Spec == Init /\ [][Next]_vars

Delivered == Len(got) <= Len(meant) /\ got = SubSeq(meant, 1, Len(got))
Counted == w = Len(got)
Surfaced == lost => told
Complete == ~told => got = meant
============================================================================
