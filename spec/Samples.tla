------------------------------ MODULE Samples ------------------------------
(***************************************************************************)
(* The small-scope universe: every leaf kind in every position under every *)
(* field tag, with boundary values.  The families enumerated here are both *)
(* model checked (MCWire) and replayed against the implementation.         *)
(***************************************************************************)
EXTENDS Wire

L(k) == [k |-> k]
Ptr(t) == [k |-> "ptr", e |-> t]
Ifc(t) == [k |-> "ifc", e |-> t]
Slice(t) == [k |-> "slice", e |-> t]
Arr(n, t) == [k |-> "arr", n |-> n, e |-> t]
MapT(kt, t) == [k |-> "map", key |-> kt, e |-> t]
Fl(name, t) == [n |-> name, t |-> t, skip |-> FALSE, opt |-> FALSE, copt |-> FALSE,
                big |-> FALSE, so |-> "", ext |-> FALSE, unexp |-> FALSE]
Struct(fs) == [k |-> "struct", enum |-> FALSE, f |-> fs]
Enum(ts) == [k |-> "struct", enum |-> TRUE,
             f |-> <<Fl("Enum", [k |-> "u8", g |-> "BorshEnum"])>>
                   \o [i \in 1..Len(ts) |-> Fl(<<"V0","V1","V2","V3","V4","V5">>[i], ts[i])]]

ScalarLeaves == <<L("u8"), L("u16"), L("u32"), L("u64"), L("i8"), L("i16"), L("i32"), L("i64"),
                  L("f32"), L("f64"), L("bool"), L("str")>>
LibLeaves == <<L("Uint128"), L("Int128"), L("Float128"), L("Int64"), L("Uint64"), L("JSONFloat64"),
               L("SafeString"), L("Bool"), L("HexBytes"),
               L("Varint16"), L("Varuint16"), L("Varint32"), L("Varuint32")>>
CustLeaves == <<L("CustA"), L("CustK"), L("CustN"), L("CustO"), L("CustM"), L("CustR"), L("CustL"), L("CustD"),
                L("CsU8"), L("CsI16"), L("CsF64"), L("CsBl"), L("CsSt")>>
NamedLeaves == <<[k |-> "u8", g |-> "NU8"], [k |-> "u16", g |-> "NU16"], [k |-> "u32", g |-> "NU32"],
                 [k |-> "u64", g |-> "NU64"], [k |-> "i64", g |-> "NI64"], [k |-> "str", g |-> "NStr"],
                 [k |-> "bool", g |-> "NBl"], [k |-> "f32", g |-> "NF32"]>>
Leaves == ScalarLeaves \o LibLeaves \o CustLeaves \o NamedLeaves
FewLeaves == <<L("u8"), L("u16"), L("i32"), L("str"), L("Uint128"), L("Varint32"), L("CustA")>>

Ramp(w, k) == [i \in 1..w |-> (k + i) % 256]
Fill(w, b, top) == [i \in 1..w |-> IF i = w THEN top ELSE b]

\* boundary values of a type, as a sequence; all inside the round-trip domain
Dedup(ks) == FoldLeft(LAMBDA acc, k : IF \E i \in 1..Len(acc) : acc[i] = k THEN acc ELSE Append(acc, k), <<>>, ks)
RECURSIVE Vals(_)
Vals(t) ==
  CASE t.k \in IntK \cup OrdLibK \cup VarK \cup CsInt \cup {"CustK"} ->
         LET w == Width(t.k) IN
         <<Ramp(w, 0), Fill(w, 255, 255), Fill(w, 0, 128), Fill(w, 255, 127), Zeros(w), <<1>> \o Zeros(w-1)>>
    [] t.k \in {"f32","CsF32"} -> <<(<<0,0,128,63>>), <<0,0,192,193>>, <<0,0,128,127>>, <<0,0,0,0>>, <<1,0,0,0>>>>
    [] t.k \in {"f64","JSONFloat64","CsF64"} ->
         <<(<<0,0,0,0,0,0,240,63>>), <<1,2,3,4,5,6,20,192>>, <<0,0,0,0,0,0,240,255>>, Zeros(8)>>
    [] t.k \in {"bool","Bool","CsBl"} -> <<TRUE, FALSE>>
    [] t.k \in {"str","SafeString","CsSt"} -> <<(<<97,98,99>>), <<195,169,0,228,184,173>>, <<>>, <<240,159,152,128>>, <<97,226,130>>>>
    [] t.k = "HexBytes" -> <<[nil |-> FALSE, s |-> <<0,255,16>>], [nil |-> TRUE, s |-> <<>>], [nil |-> FALSE, s |-> <<>>]>>
    [] t.k = "CustA" -> <<(<<(<<1,2>>), <<120>>>>), <<(<<255,255>>), <<>>>>, <<(<<0,0>>), <<>>>>>>
    [] t.k = "CustP" -> <<(<<(<<1,2>>)>>), <<(<<0,0>>)>>>>
    [] t.k = "CustR" -> <<(<<1,2,3>>), <<0,0,0>>>>
    [] t.k = "CustL" -> <<[nil |-> FALSE, s |-> <<(<<1,2>>), <<3,4>>>>], [nil |-> FALSE, s |-> <<>>], [nil |-> TRUE, s |-> <<>>]>>
    [] t.k = "CustD" -> <<[nil |-> FALSE, m |-> <<(<<(<<7>>), <<1>>>>), (<<(<<2>>), <<0>>>>)>>], [nil |-> TRUE, m |-> <<>>]>>
    [] t.k = "CustM" -> <<(<<(<<1,2>>), Ramp(8,0)>>), <<Zeros(2), Zeros(8)>>>>
    [] t.k = "CustO" -> <<(<<Ramp(8,0)>>), <<Zeros(8)>>>>
    [] t.k = "CustN" -> <<(<<(<<1,2>>), [nil |-> FALSE, s |-> <<9,8>>], <<3,4,5,6>>>>),
                          <<(<<0,0>>), [nil |-> TRUE, s |-> <<>>], Zeros(4)>>>>
    [] t.k = "ptr" -> LET vs == Vals(t.e) IN [i \in 1..Len(vs) |-> <<vs[i]>>]
    [] t.k = "arr" ->
         IF Flat(t.e) THEN <<[i \in 1..t.n |-> (200 + 13*i) % 256], Zeros(t.n)>>
         ELSE LET vs == Vals(t.e)
                  at(j) == [i \in 1..t.n |-> vs[((i + j) % Len(vs)) + 1]]
              IN IF t.n = 0 THEN <<(<<>>)>> ELSE <<at(0), at(1), at(2)>>
    [] t.k = "slice" ->
         IF Flat(t.e) THEN <<[nil |-> FALSE, s |-> <<1,2,255>>], [nil |-> FALSE, s |-> <<>>], [nil |-> TRUE, s |-> <<>>]>>
         ELSE LET vs == Vals(t.e)
              IN <<[nil |-> FALSE, s |-> SubSeq(vs, 1, IF Len(vs) > 3 THEN 3 ELSE Len(vs))],
                   [nil |-> FALSE, s |-> <<vs[Len(vs)]>>],
                   [nil |-> TRUE, s |-> <<>>]>>
    [] t.k = "map" ->
         LET ks == Dedup(Vals(t.key))
             vs == Vals(t.e)
             ent(i) == <<ks[i], vs[((i-1) % Len(vs)) + 1]>>
         IN <<[nil |-> FALSE, m |-> [i \in 1..(IF Len(ks) > 3 THEN 3 ELSE Len(ks)) |-> ent(i)]],
              [nil |-> FALSE, m |-> <<ent(2)>>],
              [nil |-> TRUE, m |-> <<>>],
              [nil |-> FALSE, m |-> [i \in 1..Len(ks) |-> ent(i)]]>>
    [] t.k = "struct" ->
         IF t.enum
         THEN LET nv == Len(t.f) - 1
                  mk(i, j) == [q \in 1..Len(t.f) |->
                                 IF q = 1 THEN <<i-1>>
                                 ELSE LET vs == Vals(t.f[q].t) IN
                                      IF q = i+1 THEN vs[((j-1) % Len(vs)) + 1] ELSE Zero(t.f[q].t)]
              IN FlattenSeq([i \in 1..nv |-> LET n == Len(Vals(t.f[i+1].t))
                                             IN [j \in 1..(IF n > 2 THEN 2 ELSE n) |-> mk(i, j)]])
         ELSE LET fv == [i \in 1..Len(t.f) |-> IF t.f[i].unexp THEN <<Zero(t.f[i].t)>> ELSE Vals(t.f[i].t)]
                  n == FoldLeft(LAMBDA a, x : IF Len(x) > a THEN Len(x) ELSE a, 1, fv)
              IN [j \in 1..(IF n > 4 THEN 4 ELSE n) |->
                    [i \in 1..Len(t.f) |-> fv[i][((i + j - 2) % Len(fv[i])) + 1]]]
    [] t.k = "iface" -> <<0, 1>>
    [] t.k = "ifc" -> LET vs == Vals(t.e) IN <<(<<>>)>> \o [i \in 1..Len(vs) |-> <<vs[i]>>]
    [] t.k = "unsup" -> <<1, 0>>

Take(s, n) == SubSeq(s, 1, IF Len(s) > n THEN n ELSE Len(s))

\* scenarios <<t, v>> from a sequence of types, at most n values each
Of(ts, n) == FlattenSeq([i \in 1..Len(ts) |->
               LET vs == Take(Vals(ts[i]), n) IN [j \in 1..Len(vs) |-> [t |-> ts[i], v |-> vs[j]]]])
MapSeq(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]

F0 == Fl("F0", L("u8"))
Big(f) == [f EXCEPT !.big = TRUE]
Opt(f) == [f EXCEPT !.opt = TRUE]
COpt(f) == [f EXCEPT !.copt = TRUE]

KeyLeaves == <<L("u8"), L("u16"), L("u32"), L("u64"), L("i8"), L("i16"), L("i32"), L("i64"), L("str"),
               L("f32"), L("f64"), L("Int64"), L("Uint64"), L("Varint32"), L("Varuint16"),
               [k |-> "i64", g |-> "NI64"], [k |-> "u64", g |-> "NU64"], [k |-> "str", g |-> "NStr"],
               [k |-> "i8", g |-> "NI8"]>>

\* every leaf, alone and in every container
CoreTypes ==
     Leaves
  \o MapSeq(Leaves, LAMBDA t : Ptr(t))
  \o MapSeq(Leaves, LAMBDA t : Slice(t))
  \o MapSeq(Leaves, LAMBDA t : Arr(3, t))
  \o MapSeq(Leaves, LAMBDA t : MapT(L("u8"), t))
  \o MapSeq(Leaves, LAMBDA t : Struct(<<Fl("A", L("u16")), Fl("B", t), Big(Fl("C", t)), Fl("D", L("u32"))>>))
  \o MapSeq(Leaves, LAMBDA t : Slice(Struct(<<Fl("A", t), Fl("B", L("u8"))>>)))
  \o MapSeq(FewLeaves, LAMBDA t : Slice(Slice(t)))
  \o MapSeq(FewLeaves, LAMBDA t : Arr(2, Slice(t)))
  \o MapSeq(FewLeaves, LAMBDA t : Slice(Ptr(t)))
  \o MapSeq(FewLeaves, LAMBDA t : Ptr(Ptr(t)))
  \o MapSeq(FewLeaves, LAMBDA t : Ptr(Slice(t)))
  \o MapSeq(FewLeaves, LAMBDA t : MapT(L("str"), Slice(t)))
  \o MapSeq(FewLeaves, LAMBDA t : MapT(L("i16"), MapT(L("u8"), t)))
  \o MapSeq(FewLeaves, LAMBDA t : Struct(<<Fl("A", Struct(<<Fl("P", t), Fl("Q", Slice(t))>>)), Fl("B", t)>>))
  \o <<Arr(0, L("u16")), Arr(0, L("str")), Struct(<<>>), Arr(2, Struct(<<>>)),
       Struct(<<Fl("A", Struct(<<>>)), Fl("B", L("u8"))>>), Slice(Arr(2, L("u8"))), Arr(2, Arr(2, L("i16"))),
       Slice(Ptr(L("CustP"))), MapT(L("u8"), Ptr(L("CustP"))), Struct(<<Fl("A", Ptr(L("CustP"))), Fl("B", L("i8"))>>)>>

OptWraps(t) == <<t, Ptr(t), Slice(t), Ptr(Slice(t)), Arr(2, t), MapT(L("u8"), t), Struct(<<Fl("P", t)>>), Ptr(Struct(<<Fl("P", t)>>))>>
\* absent values as well as present ones
OptField(f) == LET tt == Struct(<<Fl("A", L("u8")), f, Fl("Z", L("u16"))>>)
                   vs == Take(Vals(f.t), 3) \o <<Zero(f.t)>>
               IN [i \in 1..Len(vs) |-> [t |-> tt, v |-> <<(<<7>>), vs[i], <<1,2>>>>]]
OptOf(t) == FlattenSeq(MapSeq(OptWraps(t), LAMBDA w :
              OptField(Opt(Fl("X", w))) \o OptField(COpt(Fl("X", w))) \o OptField(Opt(COpt(Fl("X", w))))
              \o OptField(Opt(Big(Fl("X", w)))) \o OptField(COpt(Big(Fl("X", w))))))
OptInner(t) == Struct(<<Opt(Fl("P", t)), COpt(Fl("Q", t))>>)
OptNest(t) == LET z == <<Zero(t), Vals(t)[1]>>
                  y == <<Vals(t)[1], Vals(t)[1]>>
                  w == <<Zero(t), Zero(t)>>
                  I == OptInner(t)
              IN <<[t |-> Slice(I), v |-> [nil |-> FALSE, s |-> <<z, y, w>>]],
                   [t |-> Struct(<<Opt(Fl("X", I)), Fl("Y", L("u8"))>>), v |-> <<z, <<3>>>>],
                   [t |-> Struct(<<Opt(Fl("X", I)), Fl("Y", L("u8"))>>), v |-> <<w, <<3>>>>],
                   [t |-> Struct(<<Opt(Fl("X", Ptr(I))), Fl("Y", L("u8"))>>), v |-> <<(<<w>>), <<3>>>>],
                   [t |-> Struct(<<COpt(Fl("X", Ptr(I))), Fl("Y", L("u8"))>>), v |-> <<(<<y>>), <<3>>>>],
                   [t |-> MapT(L("u8"), I), v |-> [nil |-> FALSE, m |-> <<(<<(<<1>>), z>>)>>]]>>
FamOpt == FlattenSeq(MapSeq(Leaves, LAMBDA t : OptOf(t) \o OptNest(t)))

EnumWraps(t) == <<t, Ptr(t), Slice(t), Arr(2, t), MapT(L("u8"), t), Struct(<<Fl("P", t), Big(Fl("Q", t))>>), Ptr(Struct(<<Fl("P", t)>>))>>
EnumOf(w) == Enum(<<Struct(<<>>), w, L("u16")>>)
EnumBad(w) == LET tt == EnumOf(w) IN <<[t |-> tt, v |-> [Zero(tt) EXCEPT ![1] = <<3>>]],
                                        [t |-> tt, v |-> [Zero(tt) EXCEPT ![1] = <<255>>]]>>
\* the inactive variants hold something too
EnumDirty(w) == LET tt == EnumOf(w) IN
   [i \in 1..3 |-> [t |-> tt, v |-> <<(<<i-1>>), <<>>, Vals(w)[1], <<7,7>>>>]]
FamEnum ==
  FlattenSeq(MapSeq(Leaves, LAMBDA t : FlattenSeq(MapSeq(EnumWraps(t), LAMBDA w :
      Of(<<EnumOf(w)>>, 6) \o EnumDirty(w)))))
  \o FlattenSeq(MapSeq(FewLeaves, LAMBDA t : EnumBad(t)))
  \o Of(MapSeq(FewLeaves, LAMBDA t : Slice(EnumOf(t))), 3)
  \o Of(MapSeq(FewLeaves, LAMBDA t : Enum(<<EnumOf(t), L("u8")>>)), 3)
  \o Of(MapSeq(FewLeaves, LAMBDA t : Struct(<<Fl("A", L("u8")), Opt(Fl("B", Ptr(EnumOf(t)))), Fl("C", L("u8"))>>)), 3)
  \o Of(MapSeq(FewLeaves, LAMBDA t : MapT(L("u8"), EnumOf(t))), 3)

\* field selection and byte order: every triple of field flavours
Flavours(name) == <<Fl(name, L("u16")), Big(Fl(name, L("u32"))), [Fl(name, L("u32")) EXCEPT !.skip = TRUE],
   [Fl(name, L("u16")) EXCEPT !.unexp = TRUE], Fl(name, L("iface")), Big(Fl(name, L("Uint128"))),
   Big(Fl(name, Ptr(L("i16")))), Big(Fl(name, Slice(L("u16")))), Big(Fl(name, L("CustO"))), Fl(name, L("CustO")), Big(Fl(name, L("CustM"))),
   Big(Fl(name, Struct(<<Fl("P", L("u16"))>>))), [Big(Fl(name, L("i64"))) EXCEPT !.skip = TRUE],
   Big(Fl(name, Arr(2, L("i16")))), Big(Fl(name, L("f32"))), Fl(name, L("Int64")), Big(Fl(name, L("JSONFloat64")))>>
Low(name) == CASE name = "F0" -> "f0" [] name = "F1" -> "f1" [] name = "F2" -> "f2"
Fix(f) == IF f.unexp THEN [f EXCEPT !.n = Low(f.n)] ELSE f
TagTypes2 == FlattenSeq(MapSeq(Flavours("F0"), LAMBDA a : MapSeq(Flavours("F1"), LAMBDA b : Struct(<<Fix(a), Fix(b)>>))))
TagTypes3 == FlattenSeq(MapSeq(Take(Flavours("F0"), 10), LAMBDA a : FlattenSeq(MapSeq(Take(Flavours("F1"), 10), LAMBDA b :
               MapSeq(<<1, 2, 6, 9, 10>>, LAMBDA c : Struct(<<Fix(a), Fix(b), Fix(Flavours("F2")[c])>>))))))
TagTypes == TagTypes2 \o TagTypes3
   \o MapSeq(Leaves, LAMBDA t : Struct(<<Big(Fl("A", t)), Fl("B", t), Big(Fl("C", Ptr(t))), Fl("D", L("u16")), Big(Fl("E", Slice(t))), Fl("F", L("u32"))>>))
   \o MapSeq(Leaves, LAMBDA t : Slice(Struct(<<[Fl("A", t) EXCEPT !.skip = TRUE], Big(Fl("B", L("u16"))), Fl("C", t)>>)))

\* linked counts: declared count against a slice of two elements
CountKinds == <<"u8","u16","u32","u64","i8","i16","i32","i64","Varuint16","Varint16","Varuint32","Varint32","Uint64","Int64">>
CountVal(k, c) == IF c = -1 THEN Fill(Width(k), 255, 255)
                  ELSE IF c = 99 THEN Fill(Width(k), 255, 127)
                  ELSE IF c = -99 THEN Fill(Width(k), 0, 128)
                  ELSE LEn(c, Width(k))
SoTwo(t) == LET vs == Vals(t) IN IF Flat(t) THEN <<7, 8>> ELSE <<vs[1], vs[IF Len(vs) > 1 THEN 2 ELSE 1]>>
SoType(k, t, big) == Struct(<<[Fl("N", L(k)) EXCEPT !.so = "D", !.big = big], Fl("M", L("u8")), Fl("D", Slice(t)), Fl("Z", L("u16"))>>)
SoScen(k, t, c, big) == [t |-> SoType(k, t, big),
                         v |-> <<CountVal(k, c), <<5>>, [nil |-> FALSE, s |-> SoTwo(t)], <<1,2>>>>]
SoPtr(k, t, c) == [t |-> Struct(<<[Fl("N", L(k)) EXCEPT !.so = "D"], Fl("D", Ptr(Slice(t))), Fl("Z", L("u16"))>>),
                   v |-> <<CountVal(k, c), <<[nil |-> FALSE, s |-> SoTwo(t)]>>, <<1,2>>>>]
SoOpt(k, t, c) == [t |-> Struct(<<[Fl("N", L(k)) EXCEPT !.so = "D"], Opt(Fl("D", Slice(t))), Fl("Z", L("u16"))>>),
                   v |-> <<CountVal(k, c), [nil |-> c = 0, s |-> IF c = 0 THEN <<>> ELSE SoTwo(t)], <<1,2>>>>]
SoTwice(k, t, c) == [t |-> Struct(<<[Fl("N", L(k)) EXCEPT !.so = "E"], [Fl("M", L("u8")) EXCEPT !.so = "D"],
                                    Fl("D", Slice(L("u16"))), Fl("E", Slice(t)), Fl("Z", Slice(L("u8")))>>),
                     v |-> <<CountVal(k, c), <<1>>, [nil |-> FALSE, s |-> <<(<<9,9>>)>>],
                             [nil |-> FALSE, s |-> SoTwo(t)], [nil |-> FALSE, s |-> <<4,4,4>>]>>]
FamSizeof ==
  FlattenSeq(MapSeq(CountKinds, LAMBDA k : FlattenSeq(MapSeq(<<L("u8"), L("u16"), L("u64"), L("str"), L("i16"), L("CustA"), Struct(<<Fl("P", L("u8")), Fl("Q", L("str"))>>)>>,
     LAMBDA t : FlattenSeq(MapSeq(<<-99, -1, 0, 1, 2, 3, 99>>, LAMBDA c :
        <<SoScen(k, t, c, FALSE), SoScen(k, t, c, TRUE), SoPtr(k, t, c), SoOpt(k, t, c), SoTwice(k, t, c)>>))))))

\* trailing extensions
ExtF(name, t) == [Fl(name, t) EXCEPT !.ext = TRUE]
ExtTypes == FlattenSeq(MapSeq(Leaves, LAMBDA t :
   <<Struct(<<Fl("A", L("u8")), ExtF("B", t)>>),
     Struct(<<Fl("A", t), ExtF("B", L("u16")), ExtF("C", t)>>),
     Struct(<<ExtF("A", t), ExtF("B", Slice(L("u8"))), ExtF("C", L("u32"))>>),
     Struct(<<Fl("A", L("u16")), Opt(ExtF("B", Ptr(t))), Big(ExtF("C", L("u64")))>>)>>))

\* maps: every key kind, every choice of up to three boundary keys
KeySets(ks) == LET n == Len(ks) IN
   [i \in 1..n |-> <<ks[i]>>]
   \o FlattenSeq([i \in 1..n |-> FlattenSeq([j \in 1..n |-> IF i < j THEN <<(<<ks[i], ks[j]>>), <<ks[j], ks[i]>>>> ELSE <<>>])])
   \o <<ks>>
KeyVals(t) == CASE t.k = "str" -> <<(<<>>), <<97>>, <<97,0>>, <<97,98>>, <<255>>, <<195,169>>, <<66>>>>
                [] t.k \in IntK \cup OrdLibK \cup VarK -> Vals(t) \o <<Fill(Width(t.k), 0, 1), [i \in 1..Width(t.k) |-> IF i = 1 THEN 129 ELSE 0],
                        [i \in 1..Width(t.k) |-> IF i = 1 THEN 254 ELSE IF i = Width(t.k) THEN 127 ELSE 255]>>
                [] t.k = "f64" -> Vals(t) \o <<(<<0,0,0,0,0,0,0,64>>), <<0,0,0,0,0,0,0,192>>, <<0,0,0,0,0,0,240,191>>>>
                [] OTHER -> Vals(t) \o <<(<<0,0,0,192>>), <<0,0,128,191>>>>
MapScen(kt, et, ks) == [t |-> MapT(kt, et), v |-> [nil |-> FALSE,
     m |-> [i \in 1..Len(ks) |-> <<ks[i], Vals(et)[((i-1) % Len(Vals(et))) + 1]>>]]]
FamMaps == FlattenSeq(MapSeq(KeyLeaves, LAMBDA kt :
              MapSeq(KeySets(Dedup(KeyVals(kt))), LAMBDA ks : MapScen(kt, L("u16"), ks))))
        \o FlattenSeq(MapSeq(<<L("i8"), L("str"), L("u32")>>, LAMBDA kt : FlattenSeq(MapSeq(FewLeaves \o <<Slice(L("u16")), Struct(<<Fl("A", L("u8"))>>), MapT(L("u8"), L("u8"))>>,
              LAMBDA et : <<MapScen(kt, et, Dedup(KeyVals(kt)))>>))))

\* positions of types with their own codec
CustPos(t) == <<t, Ptr(t), Slice(t), Arr(2, t), MapT(L("u8"), t), Struct(<<Fl("A", t), Fl("B", L("u16")), Big(Fl("C", t)), Fl("D", L("u16"))>>),
   Struct(<<Opt(Fl("A", t)), COpt(Fl("B", t)), Big(Opt(Fl("C", Ptr(t)))), Fl("D", L("u16"))>>),
   Enum(<<t, Ptr(t), Slice(t)>>), Slice(Ptr(t)), Ptr(Slice(t)), Slice(Struct(<<Fl("A", t), Fl("B", t)>>)),
   MapT(L("str"), Slice(t)), Ptr(Ptr(t)), Struct(<<Fl("A", Struct(<<Big(Fl("X", t))>>)), Fl("B", t)>>)>>
CustFail == <<[t |-> L("CustA"), v |-> <<(<<173,222>>), <<1>>>>],
              [t |-> Slice(L("CustA")), v |-> [nil |-> FALSE, s |-> <<Vals(L("CustA"))[1], <<(<<173,222>>), <<1>>>>>>]],
              [t |-> Struct(<<Fl("A", L("u8")), Fl("B", L("CustA")), Fl("C", L("u8"))>>), v |-> <<(<<1>>), <<(<<173,222>>), <<>>>>, <<2>>>>],
              [t |-> Struct(<<Fl("A", L("u8")), Opt(Fl("B", Ptr(L("CustA"))))>>), v |-> <<(<<1>>), <<(<<(<<173,222>>), <<>>>>)>>>>],
              [t |-> MapT(L("u8"), L("CustA")), v |-> [nil |-> FALSE, m |-> <<(<<(<<1>>), <<(<<173,222>>), <<>>>>>>)>>]],
              [t |-> Enum(<<L("CustA")>>), v |-> <<(<<0>>), <<(<<173,222>>), <<>>>>>>],
              [t |-> Arr(2, L("CustA")), v |-> <<(<<(<<1,0>>), <<>>>>), <<(<<173,222>>), <<>>>>>>]>>
FamCust == Of(FlattenSeq(MapSeq(CustLeaves \o <<L("Int64"), L("HexBytes"), L("Varint32"), L("Varuint16"), L("Bool"), L("SafeString")>>, LAMBDA t : CustPos(t)))
              \o <<Ptr(L("CustP")), Slice(Ptr(L("CustP"))), Arr(2, Ptr(L("CustP"))), MapT(L("u8"), Ptr(L("CustP"))), Enum(<<Ptr(L("CustP")), L("u8")>>),
                   Struct(<<Fl("A", Ptr(L("CustP"))), Opt(Fl("B", Ptr(L("CustP")))), Fl("C", L("u8"))>>), Ptr(Ptr(L("CustP"))),
                   Struct(<<Fl("A", Ifc(L("CustA"))), Opt(Fl("B", Ifc(L("CustN")))), Big(Fl("C", Ifc(L("CustO")))), Fl("D", L("u16"))>>),
                   Arr(2, Ifc(L("CustP")))>>, 4)
           \o CustFail

UnsupG == <<"int","uint","uintptr","chan","func","complex64","complex128">>
Un(g) == [k |-> "unsup", g |-> g]
FamUnsup == FlattenSeq(MapSeq(UnsupG, LAMBDA g : Of(<<Un(g), Ptr(Un(g)), Struct(<<Fl("A", L("u8")), Fl("B", Un(g))>>),
               Arr(2, Un(g)), Slice(Un(g)), MapT(L("u8"), Un(g)), Struct(<<Opt(Fl("A", Ptr(Un(g)))), Fl("B", L("u8"))>>),
               Enum(<<Un(g), L("u8")>>), Struct(<<[Fl("A", Un(g)) EXCEPT !.skip = TRUE], Fl("B", L("u8"))>>),
               Slice(Struct(<<Fl("A", L("u16")), Fl("B", Un(g))>>)), Struct(<<COpt(Fl("A", Un(g))), Fl("B", L("u8"))>>)>>, 3)))

Family(name) ==
  CASE name = "core" -> Of(CoreTypes, 3)
    [] name = "core2" -> Of(CoreTypes, 6)
    [] name = "opt" -> FamOpt
    [] name = "enum" -> FamEnum
    [] name = "tags" -> Of(TagTypes, 2)
    [] name = "sizeof" -> FamSizeof
    [] name = "ext" -> Of(ExtTypes, 2)
    [] name = "maps" -> FamMaps
    [] name = "cust" -> FamCust
    [] name = "unsup" -> FamUnsup
    [] name = "varint" -> Of(FlattenSeq(MapSeq(<<L("Varint16"), L("Varuint16"), L("Varint32"), L("Varuint32")>>,
                              LAMBDA t : CustPos(t))), 4)
============================================================================
