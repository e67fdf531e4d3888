------------------------------ MODULE DecModel ------------------------------
(* Every short text over the alphabet of decimal numbers, alone and next to  *)
(* the limits of precision and exponent, and every sign/coefficient/exponent *)
(* of a palette.  Emitted and given to the code.                             *)
EXTENDS Decimal, Json
CONSTANTS MaxLen, Alphabet, Coefs, Exps
VARIABLES kind, text, left
vars == << kind, text, left >>
Rep(d, n) == [i \in 1..n |-> 48 + d]
RECURSIVE Dg(_)
Dg(n) == IF n < 10 THEN << 48 + n >> ELSE Dg(n \div 10) \o << 48 + (n % 10) >>
Tails == { <<>> } \cup { A(e) \o Dg(n) : e \in {"E", "E+", "E-", "e-"}, n \in Exps }
Heads == { <<>>, Rep(9, 33), Rep(9, 34), << 49 >> \o Rep(0, 33), << 49 >> \o Rep(0, 34), Rep(0, 40), << 48, 46 >> \o Rep(0, 33), << 48, 46 >> \o Rep(0, 34) }
Init == \/ kind = "text" /\ text \in Heads /\ left = MaxLen
        \/ kind = "limit" /\ left = 0 /\ \E h \in {<<49>>, <<48>>, <<49, 48>>, <<49, 46, 53>>, <<49, 50>>, <<46, 53>>, <<45, 49>>} \cup (Heads \ {<<>>}), t \in Tails : text = h \o t
        \/ kind = "bits" /\ left = 0 /\ \E cf \in Coefs, e \in Exps, sg \in {0, 1}, neg \in {FALSE, TRUE} : text = [coef |-> cf, e |-> IF sg = 1 THEN -e ELSE e, neg |-> neg]
Next == /\ kind = "text" /\ left > 0 /\ \E ch \in Alphabet : text' = Append(text, ch)
        /\ left' = left - 1 /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars
Emitted == IF kind = "bits" THEN (text.e \in -6176..6111 => PrintT("CASE " \o ToJson([kind |-> "bits", coef |-> text.coef, e |-> text.e, neg |-> text.neg])))
           ELSE PrintT("CASE " \o ToJson([kind |-> "text", s |-> text]))
\* the two notions of "denotes a number" agree: what fits exactly fits
Sane == kind # "bits" => LET d == DecOfText(text) IN (d.c = "num" /\ Exactly(d)) => Fits(d)
=============================================================================
