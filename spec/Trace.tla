------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: every session recorded from the implementation must   *)
(* be a behaviour of the specification.  One initial state per session;    *)
(* an event the specification does not allow ends it with a REJECT line.   *)
(***************************************************************************)
EXTENDS Judge, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.VP_TRACE)

VARIABLES sid, i, st
vars == <<sid, i, st>>

Init == sid \in 1..Len(Sessions) /\ i = 1 /\ st = Empty

Next ==
  /\ i > 0
  /\ i <= Len(Sessions[sid].evs)
  /\ LET j == Judge(Sessions[sid].evs[i], st) IN
     IF j.ok THEN /\ i' = i + 1
                  /\ st' = j.st
                  /\ UNCHANGED sid
     ELSE /\ PrintT(<<"REJECT", Sessions[sid].id, i, Sessions[sid].evs[i].op>>)
          /\ i' = -i
          /\ UNCHANGED <<sid, st>>
============================================================================
