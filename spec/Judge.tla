------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* Which observations the specification allows.  An event is a record with *)
(* the operation ev.op, its inputs, and under ev.o what the implementation *)
(* did.  Stateful events also read and move the state of the codec objects *)
(*   st.d[id] = [m, data, pos]      decoders                               *)
(*   st.e[id] = [m, out]            encoders (out: length of the output)   *)
(* Verdict: [ok, st].                                                      *)
(***************************************************************************)
EXTENDS Ops, Num, Variant

Empty == [d |-> [i \in {} |-> 0], e |-> [i \in {} |-> 0]]

Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Prior(ev) == IF ev.pr = <<>> THEN Zero(ev.t) ELSE ev.pr[1]

---------------------------------------------------------------------------
EncOk(m, t, v, o) ==
  BareNil(m, t, v) \/
  IF Enc(m, t, v).ok THEN o.r = "ok" /\ IsEncoding(m, t, v, o.out) ELSE o.r = "err"

RtOk(ev) ==
  LET o == ev.o IN
  InDom(ev.m, ev.t, ev.v) =>
     /\ o.er = "ok" /\ o.dr = "ok"
     /\ o.pos = o.n
     /\ SameV(ev.t, o.dv, Proj(ev.m, ev.t, ev.v))

\* a struct with an ordinary field behind an extension field has no decoding
Misplaced(t) == \E i, j \in 1..Len(t.f) : i < j /\ t.f[i].ext /\ ~t.f[i].skip /\ ~t.f[j].ext /\ ~t.f[j].skip
\* there are three formats, and no codec for anything else
CodecMadeOk(ev) == LET good == ev.n \in 0..2
                       names == <<"bin","c16","borsh">>
                   IN /\ ev.o.e = good /\ ev.o.d = good
                      /\ good => ev.o.ei = names[ev.n+1] /\ ev.o.di = names[ev.n+1] /\ ev.o.ii = names[ev.n+1]

\* decoding D from p into a destination holding pr
DecOkAt(m, t, D, p, pr, o) ==
  LET r == Dec(m, t, D, p, pr) IN
  /\ InBounds(o, D) /\ o.is = m
  /\ IF r.ok THEN o.r = "ok" /\ o.pos = r.p /\ SameV(t, o.v, r.v) ELSE o.r = "err"

TotOk(ev) == ev.o.r \in {"ok","err"} /\ ev.o.pos >= 0 /\ ev.o.pos <= ev.n /\ ev.o.pos + ev.o.rem = ev.n

\* memory, in units of 1024 bytes, for n input bytes and a destination of
\* ev.size bytes
AllocOk(ev) == ev.o.r \in {"ok","err"} /\ ev.o.kb <= 24 + ev.n + 4 * (ev.size \div 1024)

TruncOk(ev) ==
  LET o == ev.o IN
  (o.r = "ok" /\ InDom(ev.m, ev.t, ev.v)) =>
     /\ Len(o.cuts) = o.n
     /\ \A i \in 1..Len(o.cuts) : o.cuts[i] = "err"

\* several values in one stream, followed by arbitrary bytes
FrameOk(ev) ==
  LET o == ev.o
      n == Len(ev.vs)
  IN (\A i \in 1..n : InDom(ev.m, ev.vs[i].t, ev.vs[i].v)) =>
       /\ o.r = "ok"
       /\ \A i \in 1..n : /\ o.decs[i].r = "ok"
                          /\ o.decs[i].pos = o.ends[i]
                          /\ SameV(ev.vs[i].t, o.decs[i].v, Proj(ev.m, ev.vs[i].t, ev.vs[i].v))
       \* the leading value alone, with nothing behind it
       /\ o.alone.r = "ok" /\ SameV(ev.vs[1].t, o.alone.v, o.decs[1].v) /\ o.alone.pos = o.ends[1]

\* a writer that fails: full is what a working writer receives
FaultOn(full, o) ==
  IF o.failed THEN /\ o.r = "err" /\ Prefix(o.got, full) /\ o.w = Len(o.got)
  ELSE o.r = "ok" /\ o.got = full /\ o.w = Len(full)
FaultOk(ev) ==
  LET e == IF ev.k = "enc" THEN Enc(ev.m, ev.t, ev.v) ELSE WriteOp(ev.m, ev.a) IN
  (e.ok /\ (ev.k = "enc" => ~BareNil(ev.m, ev.t, ev.v))) => \A i \in 1..Len(ev.o) : FaultOn(e.b, ev.o[i])

DetOk(ev) == \A i \in 1..Len(ev.o.outs) : EncOk(ev.m, ev.t, ev.v, [r |-> ev.o.r, out |-> ev.o.outs[i]])
EntriesAscend(t, es) == \A i \in 1..(Len(es)-1) : KeyLess(t, es[i][1], es[i+1][1])

---------------------------------------------------------------------------
\* calls to user-defined codecs
RECURSIVE Calls(_,_,_)
SumSeq(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Calls(m, t, v) ==
  CASE t.k \in {"CustA","CustK","CustN","CustO","CustM","CustR","CustL","CustD"} \cup CsK -> 1
    [] t.k \in {"ptr","ifc"} -> IF v = <<>> THEN 0 ELSE IF t.e.k = "CustP" THEN 1 ELSE Calls(m, t.e, v[1])
    [] t.k = "arr" -> IF UKind(t.e) > 0 THEN 0 ELSE SumSeq([i \in 1..Len(v) |-> Calls(m, t.e, v[i])])
    [] t.k = "slice" -> IF UKind(t.e) > 0 THEN 0 ELSE SumSeq([i \in 1..Len(v.s) |-> Calls(m, t.e, v.s[i])])
    [] t.k = "map" -> SumSeq([i \in 1..Len(v.m) |-> Calls(m, t.key, v.m[i][1]) + Calls(m, t.e, v.m[i][2])])
    [] t.k = "struct" ->
         IF t.enum /\ m = "borsh" THEN Calls(m, t.f[v[1][1]+2].t, v[v[1][1]+2])
         ELSE LET pv == ProjFields(m, t, v)
                  linked(i) == \E j \in 1..Len(t.f) : t.f[j].so = t.f[i].n
                  one(i) == LET f == t.f[i] IN
                    IF f.skip \/ f.unexp \/ f.t.k = "iface" THEN 0
                    ELSE IF (f.opt \/ (f.copt /\ m = "borsh")) /\ IsZero(f.t, v[i]) THEN 0
                    ELSE Calls(m, f.t, IF linked(i) THEN pv[i] ELSE v[i])
              IN SumSeq([i \in 1..Len(t.f) |-> one(i)])
    [] OTHER -> 0
CallsOk(ev) ==
  InDom(ev.m, ev.t, ev.v) => LET n == Calls(ev.m, ev.t, ev.v) IN
     ev.o.er = "ok" /\ ev.o.dr = "ok" /\ ev.o.ec = n /\ ev.o.dc = n

---------------------------------------------------------------------------
\* the ways of encoding a value agree
AgreeOk(ev) ==
  LET o == ev.o
      free == FreeOrder(ev.m, ev.t, ev.v)
      ok == o.one.r = "ok"
      same(out) == out = o.one.out \/ (free /\ SameBag(out, o.one.out))
  IN /\ o.one.r \in {"ok","err"} \/ BareNil(ev.m, ev.t, ev.v)
     /\ o.stream.r = o.one.r /\ o.rec.r = o.one.r /\ o.count.r = o.one.r
     /\ o.must = (IF ok THEN "ok" ELSE "panic")
     /\ ok => /\ same(o.stream.out) /\ same(o.rec.out)
              /\ o.stream.w = Len(o.one.out) /\ o.rec.w = Len(o.one.out)
              /\ o.count.n = Len(o.one.out) /\ o.mustn = Len(o.one.out)
AgreeDecOk(ev) ==
  LET o == ev.o IN
  /\ o.one.r \in {"ok","err"} /\ o.stream.r = o.one.r
  /\ o.one.r = "ok" => SameV(ev.t, o.one.v, o.stream.v)

---------------------------------------------------------------------------
\* compact-u16 entry points
CompactWriteOk(ev) ==
  LET e == WriteOp("c16", [f |-> "cu16", v |-> ev.v])
      good(x) == IF e.ok THEN x.r = "ok" /\ x.out = e.b ELSE x.r = "err" /\ x.out = <<>>
  IN \A i \in 1..Len(ev.o) : good(ev.o[i])
CompactReadOk(ev) ==
  LET d == DecCompactU16(ev.data, 0)
      good(x) == IF d.ok THEN x.r = "ok" /\ x.n = d.n /\ x.size = d.p
                 ELSE x.r = "err" /\ (x.size = 0 \/ x.size = -1)
  IN \A i \in 1..Len(ev.o) : good(ev.o[i])

---------------------------------------------------------------------------
\* long sequences, described by count and element
LongOk(ev) ==
  LET o == ev.o
      hdr == IF ev.k = "str" THEN (IF ev.m = "bin" THEN Ok(LEn(ev.n, 8)) ELSE LenEnc(ev.m, ev.n))
             ELSE LenEnc(ev.m, ev.n)
  IN IF ~hdr.ok THEN o.er = "err"
     ELSE /\ o.er = "ok" /\ o.head = hdr.b /\ o.total = Len(hdr.b) + ev.n * ev.w
          /\ o.body /\ o.dr = "ok" /\ o.same /\ o.pos = o.total

\* n levels of a recursive type, every level the same; then decodings of it by
\* one decoder, some of them of data cut short at the end
Level(m, k, more) ==
  LET cnt == LenEnc(m, IF more THEN 1 ELSE 0).b
      flag == CASE m = "bin" -> IF more THEN <<1,0,0,0>> ELSE Zeros(4)
                [] OTHER -> IF more THEN <<1>> ELSE <<0>>
  IN CASE k = "Node" -> <<7>> \o flag
       [] k = "Tree" -> Order(<<2,1>>, m # "borsh") \o cnt
       [] k = "List" -> cnt
       [] k = "Dir" -> IF more THEN cnt \o <<5>> ELSE cnt
       [] k = "Expr" -> IF more THEN <<1>> ELSE <<0,3,4>>
DeepOk(ev) ==
  LET o == ev.o
      lv == Level(ev.m, ev.k, TRUE)
      all == FlattenSeq([i \in 1..(ev.n - 1) |-> lv]) \o Level(ev.m, ev.k, FALSE)
  IN /\ o.r = "ok" /\ o.out = all /\ o.again
     /\ Len(o.ds) = Len(ev.cuts)
     /\ \A i \in 1..Len(ev.cuts) :
          IF ev.cuts[i] = 0 THEN o.ds[i].r = "ok" /\ o.ds[i].n = ev.n /\ o.ds[i].pos = Len(all)
          ELSE o.ds[i].r = "err"

\* [A u8 = 7; X n elements, the values ev.vs in turn; B u16 = 0x0908]
RepOk(ev) ==
  LET o == ev.o
      p == Len(ev.vs)
      hdr == IF ev.k = "arr" THEN Ok(<<>>) ELSE LenEnc(ev.m, ev.n)
      each == [i \in 1..p |-> IF UKind(ev.t) > 0 THEN Ok(ev.vs[i]) ELSE EncV(ev.m, ev.t, ev.vs[i], O0)]
      pat == CatAll(each)
      rest == CatAll(SubSeq(each, 1, ev.n % p))
      total == 3 + Len(hdr.b) + (ev.n \div p) * Len(pat.b) + Len(rest.b)
  IN (\A i \in 1..p : InDom(ev.m, ev.t, ev.vs[i])) =>
     IF ~hdr.ok THEN o.er = "err"
     ELSE /\ o.er = "ok" /\ o.total = total
          /\ o.head = <<7>> \o hdr.b /\ o.pat = pat.b /\ o.rep /\ o.tail = <<8,9>>
          /\ CASE ev.what = "plain" ->
                    /\ o.dr = "ok" /\ o.pos = total /\ o.per /\ Len(o.back) = p
                    /\ \A i \in 1..p : SameV(ev.t, o.back[i], Proj(ev.m, ev.t, ev.vs[i]))
               [] ev.what = "cuts" -> \A i \in 1..Len(o.cuts) : o.cuts[i] = "err"
               [] ev.what = "faults" -> \A i \in 1..Len(o.faults) :
                    LET f == o.faults[i] IN
                    IF f.failed THEN f.r = "err" /\ f.pre /\ f.w = f.n
                    ELSE f.r = "ok" /\ f.pre /\ f.n = total /\ f.w = total
               [] ev.what = "agree" -> /\ \A i \in 1..Len(o.all) : o.all[i] = "same"
                                       /\ o.cr = "ok" /\ o.count = total

---------------------------------------------------------------------------
U128Ok(ev) ==
  LET o == ev.o
      v == ev.v
  IN /\ o.r = "ok"
     /\ (ev.k # "Float128" => o.big = Num128(ev.k, v) /\ o.dec = Num128(ev.k, v))
     /\ (ev.k = "Uint128" => o.bytes = Reverse(v) /\ o.str = Decimal(v) /\ o.hex = <<48,120>> \o HexOf(Reverse(v)))
     /\ o.json = JsonOut(ev.k, v) /\ o.back = v
     /\ o.le = v /\ o.be = Reverse(v) /\ o.rle = v /\ o.rbe = v
     \* with no byte order asked for, the value's own Endianness counts
     /\ o.own = Order(v, ev.big) /\ o.rown = v
     \* also after it was read from JSON, which is about the number only
     /\ o.jw = Order(v, ev.jbig) \/ (ev.k # "Uint128" /\ o.jw = v)
JsonOutOk(ev) == ev.o.r = "ok" /\ ev.o.text = JsonOut(ev.k, ev.v) /\ ev.o.br = "ok" /\ ev.o.back = ev.v
JsonInOk(ev) ==
  LET x == JsonIn(ev.k, UnEsc(ev.text)) IN
  CASE x.r = "ok" -> ev.o.r = "ok" /\ ev.o.v = x.v
    [] x.r = "err" -> ev.o.r = "err"
    [] OTHER -> ev.o.r \in {"ok","err"}
\* quoted and unquoted forms mean the same
JsonPairOk(ev) == ev.o.q.r \in {"ok","err"} /\ ev.o.q.r = ev.o.u.r /\ (ev.o.q.r = "ok" => ev.o.q.v = ev.o.u.v)

CaseOk(ev) ==
  LET o == ev.o
      s == Snake(ev.s)
      p == Pascal(ev.s)
  IN /\ o.snake = s /\ o.snake2 = s /\ o.pascal = p /\ o.twice = s
     /\ o.si = Sighash(Global, Utf8(s)) /\ o.sa = Sighash(AccountNs, Utf8(p))
HashOk(ev) == ev.o.h = Sighash(ev.ns, ev.name) /\ ev.o.id = ev.o.h

FmtOk(ev) == LET o == ev.o IN
  /\ o.r = "ok" /\ o.text = FmtBytes(ev.b) /\ o.rev = Reverse(ev.b) /\ o.rest
  /\ Len(ev.b) = 8 => o.disc = Braced(ev.b)
  \* of the bytes, no bytes, a string, nil, a []int, a pointer, a number
  /\ o.bsl = <<TRUE, TRUE, FALSE, FALSE, FALSE, FALSE, FALSE>>
RecwOk(ev) == LET o == ev.o IN
  /\ o.ns = [i \in 1..Len(ev.ws) |-> Len(ev.ws[i])]
  /\ o.bytes = FlattenSeq(ev.ws) /\ o.again = o.bytes
  /\ o.text = FmtRecord(ev.name, ev.ws)

VarOk(ev) ==
  LET r == DecVariant(ev.m, ev.enc, ev.names, ev.base, ev.data, 0)
      o == ev.o
  IN IF ~r.ok THEN o.r = "err"
     ELSE /\ o.r = "ok" /\ o.id = r.id /\ o.name = ev.names[r.i] /\ o.pos = r.p
          /\ o.bi = ((r.i - 1) % Len(ev.base)) + 1 /\ o.ptr = ev.ptrs[r.i]
          /\ SameV(r.t, o.v, r.v)
VarIdOk(ev) == \A i \in 1..Len(ev.names) : ev.o.ids[i] = IdOf(ev.enc, i-1, ev.names[i])
TidOk(ev) ==
  LET o == ev.o IN
  CASE ev.f = "u8" -> o.id = Pad8(ev.v) /\ o.back = ev.v /\ o.self = ev.v
    [] ev.f = "u32" -> o.id = Pad8(Order(ev.v, ev.big)) /\ o.back = ev.v /\ (~ev.big => o.self = ev.v)
    [] ev.f = "uvarint" -> o.id = Pad8(Uvarint(ev.v)) /\ o.back = ev.v /\ o.self = ev.v
    [] ev.f = "bytes" -> o.id = Pad8(ev.v) /\ o.back = Pad8(ev.v) /\ o.eq

---------------------------------------------------------------------------
\* results do not change once returned, whatever is called or done to other
\* results afterwards
KeepOk(ev) == \A i \in 1..Len(ev.o) : ev.o[i].now = ev.o[i].last
PureOk(ev) == ev.o.before = ev.o.after /\ ev.o.r1 = ev.o.r2 /\ ev.o.x1 = ev.o.x2

\* threads: every one gets what it gets alone
ConcOk(ev) ==
  \A i \in 1..Len(ev.th) :
    LET th == ev.th[i]
        o == ev.o[i]
    IN IF th.k = "enc" THEN EncOk(th.m, th.t, th.v, o)
       ELSE LET r == DecFresh(th.m, th.t, th.data, 0) IN
            IF r.ok THEN o.r = "ok" /\ o.pos = r.p /\ SameV(th.t, o.v, r.v) ELSE o.r = "err"

---------------------------------------------------------------------------
Stay(b, st) == [ok |-> b, st |-> st]
WithD(st, id, d) == [st EXCEPT !.d = (id :> d) @@ st.d]
WithE(st, id, e) == [st EXCEPT !.e = (id :> e) @@ st.e]

Judge(ev, st) ==
  CASE ev.op = "enc" -> Stay(EncOk(ev.m, ev.t, ev.v, ev.o), st)
    [] ev.op = "rt" -> Stay(RtOk(ev), st)
    [] ev.op = "dec" -> Stay(DecOkAt(ev.m, ev.t, ev.data, ev.p, Prior(ev), ev.o), st)
    [] ev.op = "decbad" -> Stay(ev.o.r = "err" /\ ev.o.inv /\ ev.o.pos = ev.p, st)
    [] ev.op = "misext" -> Stay(Misplaced(ev.t) /\ ev.o.refused, st)
    [] ev.op = "mkcodec" -> Stay(CodecMadeOk(ev), st)
    [] ev.op = "tot" -> Stay(TotOk(ev), st)
    [] ev.op = "alloc" -> Stay(AllocOk(ev), st)
    [] ev.op = "trunc" -> Stay(TruncOk(ev), st)
    [] ev.op = "frame" -> Stay(FrameOk(ev), st)
    [] ev.op = "fault" -> Stay(FaultOk(ev), st)
    [] ev.op = "det" -> Stay(DetOk(ev), st)
    [] ev.op = "calls" -> Stay(CallsOk(ev), st)
    [] ev.op = "agree" -> Stay(AgreeOk(ev), st)
    [] ev.op = "agreedec" -> Stay(AgreeDecOk(ev), st)
    [] ev.op = "cuw" -> Stay(CompactWriteOk(ev), st)
    [] ev.op = "cur" -> Stay(CompactReadOk(ev), st)
    [] ev.op = "long" -> Stay(LongOk(ev), st)
    [] ev.op = "deep" -> Stay(DeepOk(ev), st)
    [] ev.op = "rep" -> Stay(RepOk(ev), st)
    [] ev.op = "u128" -> Stay(U128Ok(ev), st)
    [] ev.op = "jout" -> Stay(JsonOutOk(ev), st)
    [] ev.op = "jin" -> Stay(JsonInOk(ev), st)
    [] ev.op = "jpair" -> Stay(JsonPairOk(ev), st)
    [] ev.op = "case" -> Stay(CaseOk(ev), st)
    [] ev.op = "fmt" -> Stay(FmtOk(ev), st)
    [] ev.op = "recw" -> Stay(RecwOk(ev), st)
    [] ev.op = "hash" -> Stay(HashOk(ev), st)
    [] ev.op = "var" -> Stay(VarOk(ev), st)
    [] ev.op = "varid" -> Stay(VarIdOk(ev), st)
    [] ev.op = "tid" -> Stay(TidOk(ev), st)
    [] ev.op = "keep" -> Stay(KeepOk(ev), st)
    [] ev.op = "pure" -> Stay(PureOk(ev), st)
    [] ev.op = "harness" -> Stay(FALSE, st)
    [] ev.op = "conc" -> Stay(ConcOk(ev), st)
    \* codec objects
    [] ev.op = "newd" -> [ok |-> ev.o.is = ev.m /\ ev.o.r = "ok" /\ ev.o.pos = 0 /\ InBounds(ev.o, ev.data),
                          st |-> WithD(st, ev.id, [m |-> ev.m, data |-> ev.data, pos |-> 0])]
    [] ev.op = "newe" -> [ok |-> ev.o.w = 0 /\ ev.o.is = ev.m, st |-> WithE(st, ev.id, [m |-> ev.m, out |-> 0])]
    [] ev.op = "rd" -> LET d == st.d[ev.id] IN
         [ok |-> ReadOk(d.m, ev.a, d.data, d.pos, ev.o),
          st |-> WithD(st, ev.id, [d EXCEPT !.pos = ev.o.pos])]
    [] ev.op = "decode" -> LET d == st.d[ev.id] IN
         [ok |-> DecOkAt(d.m, ev.t, d.data, d.pos, Prior(ev), ev.o),
          st |-> WithD(st, ev.id, [d EXCEPT !.pos = ev.o.pos])]
    [] ev.op = "reset" -> [ok |-> ev.o.is = st.d[ev.id].m /\ ev.o.r = "ok" /\ ev.o.pos = 0 /\ InBounds(ev.o, ev.data),
                           st |-> WithD(st, ev.id, [st.d[ev.id] EXCEPT !.data = ev.data, !.pos = 0])]
    [] ev.op = "setenc" -> LET d == st.d[ev.id] IN
         [ok |-> ev.o.is = ev.m /\ ev.o.r = "ok" /\ ev.o.pos = d.pos /\ InBounds(ev.o, d.data),
          st |-> WithD(st, ev.id, [d EXCEPT !.m = ev.m])]
    [] ev.op = "wr" -> LET e == st.e[ev.id]
                           x == WriteOp(e.m, ev.a) IN
         [ok |-> /\ ev.o.is = e.m
                 /\ IF x.ok THEN ev.o.r = "ok" /\ ev.o.d = x.b /\ ev.o.w = e.out + Len(x.b)
                    ELSE ev.o.r = "err" /\ ev.o.d = <<>> /\ ev.o.w = e.out,
          st |-> WithE(st, ev.id, [e EXCEPT !.out = ev.o.w])]
    [] ev.op = "encode" -> LET e == st.e[ev.id] IN
         [ok |-> /\ EncOk(e.m, ev.t, ev.v, [r |-> ev.o.r, out |-> ev.o.d])
                 /\ ev.o.w = e.out + Len(ev.o.d) /\ ev.o.is = e.m,
          st |-> WithE(st, ev.id, [e EXCEPT !.out = ev.o.w])]
============================================================================
