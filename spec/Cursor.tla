------------------------------- MODULE Cursor -------------------------------
(***************************************************************************)
(* A decoder as a state machine over its data: every operation from every  *)
(* reachable position, in every format.  Checks the cursor laws on the     *)
(* specification and writes the histories that take the implementation     *)
(* through every transition of this graph, followed by a probe.            *)
(***************************************************************************)
EXTENDS Ops, Json, IOUtils

Par == ndJsonDeserialize(IOEnv.VP_FAMS)[1]

Datas == <<(<<>>), <<0>>, <<200>>,
           <<1,0,0,0,2,97,98,255,255,255,255,15,0,128,1,7>>,
           <<3,0,0,0,0,0,0,0,97,98,99,200,1,130,128,4,255,240,159,152,128,9,9,192>>,
           <<255,255,3,255,255,4,128,0,129,128,1,0,0,192,127,1>>,
           <<128,128,128,128,128,128,128,128,128,1,128,128,128,128,128,128,128,128,128,2,3>>,
           <<2,195,40,0,0,0,0,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18>>>>

Wide == <<"u16","i16","u32","i32","u64","i64","u128","i128","f128","f32","f64">>
Narrow == <<"u8","byte","i8","bool","option","coption","disc","typeid","uv64","v64","uv32","v32","uv16","v16",
            "peekdisc","byteslice","string","safe","rust","cu16","cu16len","len">>
Counted == <<"bytes","nbytes","read","peek","skip","discard","seek">>
Op(f, big, n) == [f |-> f, big |-> big, n |-> n]
Alphabet(len) ==
  [i \in 1..Len(Narrow) |-> Op(Narrow[i], FALSE, 0)]
  \o [i \in 1..Len(Wide) |-> Op(Wide[i], FALSE, 0)]
  \o [i \in 1..Len(Wide) |-> Op(Wide[i], TRUE, 0)]
  \o FlattenSeq([i \in 1..Len(Counted) |->
       LET ns == (IF Counted[i] \in {"skip","discard","seek","nbytes","bytes","peek"} THEN <<-1>> ELSE <<>>)
                 \o <<0, 1, 2, len - 1, len, len + 1>>
           fit == SelectSeq(ns, LAMBDA n : n >= 0 \/ Counted[i] \in {"skip","seek"})
       IN [j \in 1..Len(fit) |-> Op(Counted[i], FALSE, fit[j])]])

Modes3 == <<"bin", "borsh", "c16">>
\* to position p (positions below the end can be sought), then a, then probe
To(p, len) == IF p = 0 THEN <<>> ELSE IF p < len THEN <<Op("seek", FALSE, p)>> ELSE <<Op("skip", FALSE, len)>>
Probe == <<Op("peek", FALSE, 1), Op("u8", FALSE, 0)>>
\* every Par.stride-th of them, as index arithmetic: history (k, q, x, y) is
\* datum k, position q-1, format x, operation y
Block(k) == LET D == Datas[k]
                A == Alphabet(Len(D))
                n == Len(A)
                size == (Len(D) + 1) * 3 * n
                first == ((Par.phase + k) % Par.stride)
                many == IF first >= size THEN 0 ELSE ((size - first - 1) \div Par.stride) + 1
                one(j) == LET i == first + (j-1) * Par.stride
                              q == i \div (3 * n)
                              x == (i \div n) % 3
                              y == i % n
                          IN [m |-> Modes3[x+1], data |-> D, ops |-> To(q, Len(D)) \o <<A[y+1]>> \o Probe]
            IN [j \in 1..many |-> one(j)]
ASSUME ndJsonSerialize(IOEnv.VP_OUT, FlattenSeq([k \in 1..Len(Datas) |-> Block(k)]))

VARIABLES m, k, pos
vars == <<m, k, pos>>
Alphs == [i \in 1..Len(Datas) |-> {Alphabet(Len(Datas[i]))[j] : j \in 1..Len(Alphabet(Len(Datas[i])))}]
Init == m \in Modes /\ k \in 1..Len(Datas) /\ pos = 0
Res(a) == ReadOp(m, a, Datas[k], pos)
After(r) == IF r.ok THEN r.p ELSE pos
Do(a) == pos' = After(Res(a)) /\ UNCHANGED <<m, k>>
SetFormat == m' \in Modes \ {m} /\ UNCHANGED <<k, pos>>
Reset == k' \in 1..Len(Datas) /\ pos' = 0 /\ UNCHANGED m
Next == (\E a \in Alphs[k] : Do(a)) \/ SetFormat \/ Reset
Spec == Init /\ [][Next]_vars

InRange == pos \in 0..Len(Datas[k])
\* the laws of every operation at every reachable position
Laws == \A a \in Alphs[k] :
  LET r == Res(a) IN
  /\ After(r) \in 0..Len(Datas[k])
  /\ a.f \in {"peek","peekdisc"} => After(r) = pos
  /\ (r.ok /\ a.f \in FixedOps) => r.p = pos + FixedW(a.f)
  /\ a.f # "seek" => After(r) >= pos
  /\ (r.ok /\ a.f \in {"bytes","nbytes","read","peek"}) => r.v = Bytes(Datas[k], pos, a.n)
  \* a count that does not fit is refused and moves nothing
  /\ (a.f \in {"bytes","nbytes","read","peek","skip","discard"} /\ a.n > Rem(Datas[k], pos)) => ~r.ok /\ r.keep
============================================================================
