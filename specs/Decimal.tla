------------------------------ MODULE Decimal -------------------------------
(* Decimal128: what the 16 stored bytes and what a text denote.              *)
(*   [c: "num"/"nan"/"inf"/"bad"/"odd", neg, ds: digits without leading      *)
(*    zeros, e: exponent]                                                    *)
EXTENDS Num
Dec(c, neg, ds, e) == [c |-> c, neg |-> neg, ds |-> ds, e |-> e]

RECURSIVE StripLead(_)
StripLead(ds) == IF ds # <<>> /\ ds[1] = 0 THEN StripLead(SubSeq(ds, 2, Len(ds))) ELSE ds
RECURSIVE StripTail(_)
StripTail(ds) == IF ds # <<>> /\ ds[Len(ds)] = 0 THEN StripTail(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds

\* b: little-endian 16 bytes.  "odd" is an encoding outside the canonical set.
DecOfBytes(b) ==
  LET neg == b[16] >= 128
      comb == (b[16] % 128) \div 4
  IN  CASE comb = 31 -> Dec("nan", FALSE, <<>>, 0)
        [] comb = 30 -> Dec("inf", neg, <<>>, 0)
        [] comb \div 8 = 3 /\ comb < 30 -> Dec("odd", neg, <<>>, 0)
        [] OTHER -> LET ds == BytesToDec(SubSeq(b, 1, 14) \o << b[15] % 2 >>)
                        e  == (b[16] % 128) * 128 + b[15] \div 2 - 6176
                    IN  IF Len(ds) > 34 THEN Dec("odd", neg, <<>>, 0) ELSE Dec("num", neg, ds, e)
CanonicalDec(b) == /\ DecOfBytes(b).c # "odd"
                   /\ DecOfBytes(b).c \in {"nan", "inf"} => b = [i \in 1..16 |-> IF i = 16 THEN b[16] ELSE 0]

(* text: [+-] digits [. digits] [e [+-] digits] *)
DecOfText(t) ==
  LET neg == t # <<>> /\ t[1] = 45
      sg  == IF t # <<>> /\ t[1] \in {43, 45} THEN 1 ELSE 0
      s   == SubSeq(t, sg + 1, Len(t))
      lw  == Lower(s)
      i1  == DigitsEnd(s, 1)
      hasDot == i1 <= Len(s) /\ s[i1] = 46
      i2  == IF hasDot THEN DigitsEnd(s, i1 + 1) ELSE i1
      hasE == i2 <= Len(s) /\ s[i2] \in {69, 101}
      es  == IF hasE /\ i2 + 1 <= Len(s) /\ s[i2 + 1] \in {43, 45} THEN 1 ELSE 0
      i3  == IF hasE THEN DigitsEnd(s, i2 + 1 + es) ELSE i2
      ip  == SubSeq(s, 1, i1 - 1)
      fp  == IF hasDot THEN SubSeq(s, i1 + 1, i2 - 1) ELSE <<>>
      xp  == IF hasE THEN SubSeq(s, i2 + 1 + es, i3 - 1) ELSE <<>>
      strict == /\ i3 = Len(s) + 1
                /\ (ip # <<>> \/ fp # <<>>)
                /\ hasDot => fp # <<>>
                /\ hasE => (xp # <<>> /\ Len(xp) <= 5)
      ee == IF hasE THEN (IF es = 1 /\ s[i2 + 1] = 45 THEN -SmallNat(xp) ELSE SmallNat(xp)) ELSE 0
      hopeless == \/ \A i \in 1..Len(s) : ~IsDigit(s[i])
                  \/ \E i \in 1..Len(s) : ~(IsDigit(s[i]) \/ s[i] \in {43, 45, 46, 69, 101})
  IN  CASE lw = A("nan") -> Dec("nan", FALSE, <<>>, 0)
        [] lw \in {A("inf"), A("infinity")} -> Dec("inf", neg, <<>>, 0)
        [] strict -> Dec("num", neg, StripLead([i \in 1..(Len(ip) + Len(fp)) |-> (ip \o fp)[i] - 48]), ee - Len(fp))
        [] hopeless -> Dec("bad", FALSE, <<>>, 0)
        [] OTHER -> Dec("unspecified", FALSE, <<>>, 0)

Exactly(d) == d.c = "num" => (Len(d.ds) <= 34 /\ d.e >= -6176 /\ d.e <= 6111)
\* is the number representable at all, with some other exponent?
Fits(d) == d.c = "num" =>
  LET z == StripTail(d.ds)
      e == d.e + Len(d.ds) - Len(z)
  IN  z = <<>> \/ (Len(z) <= 34 /\ e >= -6176 /\ e + Len(z) <= 6111 + 34)
SameNumber(a, b) ==
  /\ a.c = b.c /\ a.neg = b.neg
  /\ a.c = "num" => LET x == StripTail(a.ds)  y == StripTail(b.ds)
                    IN x = y /\ (x = <<>> \/ a.e + Len(a.ds) = b.e + Len(b.ds))
=============================================================================
