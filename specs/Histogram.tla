----------------------------- MODULE Histogram -----------------------------
(* Histograms as they are stored (x/ftdc/hdrhist): the range and precision   *)
(* they were made for and a count per bucket. The layout of the buckets is   *)
(* that of HDR histograms: linear within a bucket, doubling from one to the  *)
(* next.                                                                     *)
(*   h == [lo, hi, fig, counts]                                              *)
EXTENDS ExtJSON

Pow2(n) == 2^n
SubMag(fig) == << 5, 8, 11, 15, 18 >>[fig]     \* 2^SubMag >= 2 * 10^fig
Half(h) == Pow2(SubMag(h.fig) - 1)
RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)
Unit(h) == IF h.lo <= 1 THEN 0 ELSE BitLen(h.lo) - 1
RECURSIVE BucketsFrom(_, _, _)
BucketsFrom(top, hi, n) == IF top >= hi THEN n ELSE BucketsFrom(2 * top, hi, n + 1)
Buckets(h) == BucketsFrom(Pow2(SubMag(h.fig) + Unit(h)), h.hi, 1)
CountsLen(h) == (Buckets(h) + 1) * Half(h)

MaxNat(a, b) == IF a > b THEN a ELSE b
\* the position (from 1) of the count of a value
IndexOf(h, v) ==
  LET mask == (2 * Half(h) - 1) * Pow2(Unit(h))
      b    == BitLen(MaxNat(v, mask)) - Unit(h) - SubMag(h.fig)
      sub  == v \div Pow2(b + Unit(h))
  IN  (b + 1) * Half(h) + sub - Half(h) + 1
\* the values that are counted together with v
Width(h, v) == LET mask == (2 * Half(h) - 1) * Pow2(Unit(h)) IN Pow2(BitLen(MaxNat(v, mask)) - SubMag(h.fig))

NewHist(lo, hi, fig) == LET h == [lo |-> lo, hi |-> hi, fig |-> fig, counts |-> <<>>] IN
                        [h EXCEPT !.counts = [i \in 1..CountsLen(h) |-> 0]]
CanRecord(h, v) == IndexOf(h, v) <= Len(h.counts)
Record(h, v, n) == IF CanRecord(h, v) THEN [h EXCEPT !.counts[IndexOf(h, v)] = @ + n] ELSE h
Total(h) == FoldLeft(LAMBDA a, x : a + (IF x > 0 THEN x ELSE 0), 0, h.counts)

(***** the document of a histogram *****************************************)
I64(n) == Scalar(18, LE32(n) \o << 0, 0, 0, 0 >>)
KLo == A("lowest")
KHi == A("highest")
KFig == A("figures")
KCnt == A("counts")
HistDoc(h) == << Elem(KLo, I64(h.lo)), Elem(KHi, I64(h.hi)), Elem(KFig, I64(h.fig)),
                 Elem(KCnt, MkV(4, <<>>, <<>>, [i \in 1..Len(h.counts) |-> Elem(Digits(i - 1), I64(h.counts[i]))])) >>

(***** what a document or JSON text says ************************************)
\* fields: a sequence of [k, c (class), n (number), a (numbers)]:
\*  class "int" | "ints" | "big" (an integer too large here) | "loose" | "bad"
HasField(fs, k) == \E i \in 1..Len(fs) : fs[i].k = k
Field(fs, k) == fs[CHOOSE i \in 1..Len(fs) : fs[i].k = k]
Names == { KLo, KHi, KFig, KCnt }
Once(fs) == \A i, j \in 1..Len(fs) : Lower(fs[i].k) = Lower(fs[j].k) => i = j
\* "bad": it must be refused; "loose": it may be; else it is a histogram
Reading(fs) ==
  IF ~Once(fs) \/ \E i \in 1..Len(fs) : fs[i].k \notin Names /\ Lower(fs[i].k) \in Names THEN [c |-> "loose"]
  ELSE IF \E k \in {KFig, KCnt} : ~HasField(fs, k) THEN [c |-> "bad"]
  ELSE IF \E k \in Names : HasField(fs, k) /\ Field(fs, k).c = "bad" THEN [c |-> "bad"]
  ELSE IF \E k \in {KLo, KHi} : ~HasField(fs, k) THEN [c |-> "loose"]
  ELSE IF \E k \in Names : Field(fs, k).c \in {"loose", "big"} THEN [c |-> "loose"]
  ELSE IF Field(fs, KCnt).c # "ints" \/ \E k \in Names \ {KCnt} : Field(fs, k).c # "int" THEN [c |-> "bad"]
  ELSE LET h == [lo |-> Field(fs, KLo).n, hi |-> Field(fs, KHi).n, fig |-> Field(fs, KFig).n, counts |-> Field(fs, KCnt).a]
       IN  IF h.fig < 1 \/ h.fig > 5 THEN [c |-> "bad"]
           ELSE IF h.lo < 0 \/ h.hi < 0 \/ h.lo > 4096 THEN [c |-> "loose"]
           ELSE IF Len(h.counts) # CountsLen(h) THEN [c |-> "bad"]
           ELSE IF \E i \in 1..Len(h.counts) : h.counts[i] < 0 THEN [c |-> "loose"]
           ELSE [c |-> "ok", h |-> h]

Small64(s) == s[5] = 0 /\ s[6] = 0 /\ s[7] = 0 /\ s[8] = 0 /\ s[4] < 64
Neg64(s) == s[8] >= 128
Nat4(s) == s[1] + 256 * s[2] + 65536 * s[3] + 16777216 * s[4]
NumOfV(v) == CASE v.t = 18 /\ Small64(v.s) -> [c |-> "int", n |-> Nat4(v.s)]
               [] v.t = 18 /\ Neg64(v.s) -> [c |-> "int", n |-> -1]
               [] v.t = 18 -> [c |-> "big", n |-> 0]
               [] v.t \in {1, 16, 9, 17} -> [c |-> "loose", n |-> 0]
               [] OTHER -> [c |-> "bad", n |-> 0]
\* the class of a field from that of its numbers
Many(ns) == [c |-> IF \E i \in 1..Len(ns) : ns[i].c = "bad" THEN "bad"
                   ELSE IF \E i \in 1..Len(ns) : ns[i].c # "int" THEN "loose" ELSE "ints",
             a |-> [i \in 1..Len(ns) |-> ns[i].n]]
FieldsOfDoc(es) == [i \in 1..Len(es) |->
   IF es[i].k \notin Names THEN [k |-> es[i].k, c |-> "other", n |-> 0, a |-> <<>>]
   ELSE IF es[i].v.t = 4 THEN LET m == Many([j \in 1..Len(es[i].v.e) |-> NumOfV(es[i].v.e[j].v)]) IN [k |-> es[i].k, c |-> m.c, n |-> 0, a |-> m.a]
   ELSE LET x == NumOfV(es[i].v) IN [k |-> es[i].k, c |-> IF es[i].k = KCnt /\ x.c # "bad" THEN "bad" ELSE x.c, n |-> x.n, a |-> <<>>]]
NumOfJ(t) == CASE t.j = "num" /\ IntToken(t.s) /\ Int64Of(t.s).ok -> NumOfV(Scalar(18, Int64Of(t.s).b))
               [] t.j \in {"num", "null"} -> [c |-> "loose", n |-> 0]
               [] OTHER -> [c |-> "bad", n |-> 0]
FieldsOfJSON(t) == [i \in 1..Len(t.e) |->
   LET k == t.e[i].k
       v == t.e[i].v
   IN IF k \notin Names THEN [k |-> k, c |-> "other", n |-> 0, a |-> <<>>]
      ELSE IF v.j = "arr" THEN LET m == Many([j \in 1..Len(v.e) |-> NumOfJ(v.e[j].v)]) IN [k |-> k, c |-> m.c, n |-> 0, a |-> m.a]
      ELSE LET x == NumOfJ(v) IN [k |-> k, c |-> IF k = KCnt /\ x.c = "int" THEN "bad" ELSE x.c, n |-> x.n, a |-> <<>>]]
ReadDocH(es) == Reading(FieldsOfDoc(es))
ReadJSONH(b) == LET t == ParseJSON(b) IN
                IF ~t.ok THEN [c |-> IF ValidUtf8(b, 1) THEN "bad" ELSE "loose"]
                ELSE IF t.r.j = "null" THEN [c |-> "loose"]
                ELSE IF t.r.j # "obj" THEN [c |-> "bad"] ELSE Reading(FieldsOfJSON(t.r))
=============================================================================
