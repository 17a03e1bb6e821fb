------------------------------- MODULE Sched -------------------------------
(***************************************************************************)
(* Codecs running at the same time, each on its own data.  A thread writes *)
(* its encoding piece by piece; every interleaving leaves each with what   *)
(* it produces alone.  The interleavings are written out as schedules.     *)
(***************************************************************************)
EXTENDS Ops, Json, IOUtils

Par == ndJsonDeserialize(IOEnv.VP_FAMS)[1]

\* all ways of interleaving counts[i] steps of thread i (threads from 0)
RECURSIVE Inter(_)
Inter(c) ==
  IF \A i \in 1..Len(c) : c[i] = 0 THEN <<(<<>>)>>
  ELSE FlattenSeq([i \in 1..Len(c) |->
         IF c[i] = 0 THEN <<>>
         ELSE LET rest == Inter([c EXCEPT ![i] = c[i] - 1]) IN
              [j \in 1..Len(rest) |-> <<i - 1>> \o rest[j]]])
All == FlattenSeq([k \in 1..Len(Par.shapes) |->
         LET s == Inter(Par.shapes[k]) IN [j \in 1..Len(s) |-> [n |-> Len(Par.shapes[k]), s |-> s[j]]]])
ASSUME ndJsonSerialize(IOEnv.VP_OUT, All)

\* three encoders, three formats, different pieces
Prog == <<
  [m |-> "borsh", ops |-> <<[f |-> "u16", v |-> <<1,2>>, big |-> FALSE], [f |-> "string", v |-> <<97,98>>], [f |-> "u8", v |-> <<3>>]>>],
  [m |-> "bin", ops |-> <<[f |-> "u16", v |-> <<1,2>>, big |-> TRUE], [f |-> "string", v |-> <<97,98>>], [f |-> "bool", v |-> TRUE]>>],
  [m |-> "c16", ops |-> <<[f |-> "len", v |-> <<200,0,0,0,0,0,0,0>>], [f |-> "bytes", pre |-> TRUE, v |-> <<4>>], [f |-> "u8", v |-> <<9>>]>>]>>
RECURSIVE Solo(_,_)
Solo(t, k) == IF k = 0 THEN <<>> ELSE Solo(t, k-1) \o WriteOp(Prog[t].m, Prog[t].ops[k]).b

VARIABLES pc, out
Init == pc = [t \in 1..3 |-> 0] /\ out = [t \in 1..3 |-> <<>>]
Step(t) == /\ pc[t] < Len(Prog[t].ops)
           /\ pc' = [pc EXCEPT ![t] = pc[t] + 1]
           /\ out' = [out EXCEPT ![t] = out[t] \o WriteOp(Prog[t].m, Prog[t].ops[pc[t] + 1]).b]
Next == \E t \in 1..3 : Step(t)
Spec == Init /\ [][Next]_<<pc, out>>
Independent == \A t \in 1..3 : out[t] = Solo(t, pc[t])
============================================================================
