-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Case conversion (the heck crate) and sighashes.  Characters come with   *)
(* their Unicode properties as the environment reports them:               *)
(*   [c, an, up, lo, tl, tu]  code point, alphanumeric, upper, lower,      *)
(*                            lower-case form, upper-case form             *)
(***************************************************************************)
EXTENDS Bytes, Sha256

Utf8Of(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(cs) == FlattenSeq([i \in 1..Len(cs) |-> Utf8Of(cs[i])])

\* maximal runs of alphanumeric characters
Chunks(s) ==
  LET step(acc, ch) ==
        IF ch.an THEN [acc EXCEPT !.cur = Append(acc.cur, ch)]
        ELSE IF acc.cur = <<>> THEN acc ELSE [cur |-> <<>>, out |-> Append(acc.out, acc.cur)]
      r == FoldLeft(step, [cur |-> <<>>, out |-> <<>>], s)
  IN IF r.cur = <<>> THEN r.out ELSE Append(r.out, r.cur)

\* Words of one run.  The mode is the case of the last cased character of
\* the current word (0 none, 1 lower, 2 upper).  A word ends
\*   - after i, if the word so far last had a lower-case letter and i+1 is
\*     upper case;
\*   - before i, if the previous cased character and i are upper case and
\*     i+1 is lower case.
RECURSIVE WordsFrom(_,_,_,_)
WordsFrom(s, start, i, mode) ==
  IF i = Len(s) THEN <<SubSeq(s, start, i)>>
  ELSE LET c == s[i]
           nx == s[i+1]
           nm == IF c.lo THEN 1 ELSE IF c.up THEN 2 ELSE mode
       IN IF nm = 1 /\ nx.up THEN <<SubSeq(s, start, i)>> \o WordsFrom(s, i+1, i+1, 0)
          ELSE IF mode = 2 /\ c.up /\ nx.lo
               THEN <<SubSeq(s, start, i-1)>> \o WordsFrom(s, i, i+1, 0)
          ELSE WordsFrom(s, start, i+1, nm)
Words(s) == FlattenSeq([k \in 1..Len(Chunks(s)) |-> WordsFrom(Chunks(s)[k], 1, 1, 0)])

\* Pascal case turns a capital sigma at the end of a word into the final
\* form; snake case (as Anchor's older heck) does not
PlainLower(w) == [i \in 1..Len(w) |-> w[i].tl]
LowerW(w) == [i \in 1..Len(w) |-> IF w[i].c = 931 /\ i = Len(w) THEN 962 ELSE w[i].tl]
TitleW(w) == <<w[1].tu>> \o LowerW(SubSeq(w, 2, Len(w)))

Snake(s) == LET ws == Words(s) IN
  FlattenSeq([k \in 1..Len(ws) |-> (IF k > 1 THEN <<95>> ELSE <<>>) \o PlainLower(ws[k])])
Pascal(s) == LET ws == Words(s) IN FlattenSeq([k \in 1..Len(ws) |-> TitleW(ws[k])])

Sighash(ns, name) == SubSeq(Sha256(ns \o <<58>> \o name), 1, 8)
Global == <<103,108,111,98,97,108>>
AccountNs == <<97,99,99,111,117,110,116>>

\* letters and digits survive, in order, up to case
Folded(s) == LET an == SelectSeq(s, LAMBDA ch : ch.an) IN [i \in 1..Len(an) |-> an[i].tl]
============================================================================
