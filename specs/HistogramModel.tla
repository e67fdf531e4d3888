-------------------------- MODULE HistogramModel --------------------------
(* Small histograms of every shape and the values recorded in them.          *)
EXTENDS Histogram, Json
CONSTANTS MaxRec, Full
VARIABLES h, rec
vars == << h, rec >>
Shapes == { << lo, hi, fig >> : lo \in {0, 1, 2, 3, 8, 100}, hi \in {1, 31, 32, 33, 64, 65, 1000}, fig \in {1} } \cup (IF Full THEN { << lo, hi, 2 >> : lo \in {0, 1, 5}, hi \in {1, 256, 257, 5000} } ELSE { << 1, 257, 2 >> })
Vals == {0, 1, 31, 32, 33, 63, 64, 255, 999, 5000}
Init == \E s \in Shapes : h = NewHist(s[1], s[2], s[3]) /\ rec = <<>>
Next == Len(rec) < MaxRec /\ \E v \in Vals, n \in (IF Full THEN { 1 + 6 * Len(rec) } ELSE {1, 7}) : h' = Record(h, v, n) /\ rec' = Append(rec, << v, n >>)
Spec == Init /\ [][Next]_vars
Emit == PrintT("CASE " \o ToJson([lo |-> h.lo, hi |-> h.hi, fig |-> h.fig, rec |-> rec]))
\* the laws of the layout
InRange == rec = <<>> => \A v \in Vals \cup {h.hi, h.lo} : IndexOf(h, v) >= 1 /\ (v < h.hi => CanRecord(h, v))
Precise == rec = <<>> => \A v \in 0..200 : \A u \in {v + 1, 2 * v, v + 7} :
   /\ (IndexOf(h, u) = IndexOf(h, v)) = (u \div Width(h, u) = v \div Width(h, v) /\ Width(h, u) = Width(h, v))
   /\ IndexOf(h, u) >= IndexOf(h, v)
   /\ Width(h, v) > Pow2(Unit(h)) => Width(h, v) * Half(h) <= v
Counted == Total(h) = FoldLeft(LAMBDA a, r : a + (IF CanRecord(h, r[1]) THEN r[2] ELSE 0), 0, rec)
\* what is written is read back
Back == ReadDocH(HistDoc(h)).c = "ok" /\ ReadDocH(HistDoc(h)).h = h
=============================================================================
