------------------------------ MODULE Encoders ------------------------------
(* The low-level element encoders (package elements): one value is written   *)
(* at a position of a buffer of fixed size, and nothing else is touched.     *)
EXTENDS BSON

\* what is written: c == [f: form, k: key, v: value]
Wanted(c) ==
  CASE c.f = "elem" -> EncElem(c.k, c.v)
    [] c.f = "value" -> EncValue(c.v)
    [] c.f = "cstring" -> c.k \o << 0 >>
    [] c.f = "byte" -> << c.v.t >>

Splice(buf, start, w) == [i \in 1..Len(buf) |-> IF i > start /\ i <= start + Len(w) THEN w[i - start] ELSE buf[i]]
Fits(buf, start, w) == start + Len(w) <= Len(buf)

\* the possible results [n, ok, out]: all of it, or an error and a part of it
Written(buf, start, w) == [n |-> Len(w), ok |-> TRUE, out |-> Splice(buf, start, w)]
Part(buf, start, w, n) == [n |-> n, ok |-> FALSE, out |-> Splice(buf, start, SubSeq(w, 1, n))]
Put(buf, start, w) ==
  IF Fits(buf, start, w) THEN { Written(buf, start, w) }
  ELSE { Part(buf, start, w, n) : n \in 0..(IF start >= Len(buf) THEN 0 ELSE Len(buf) - start) }
=============================================================================
