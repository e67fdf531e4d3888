------------------------------ MODULE ArrModel ------------------------------
EXTENDS ArrOps, Json
CONSTANTS MaxLen
VARIABLE st
Vs == { Scalar(16, <<1, 0, 0, 0>>), Scalar(2, <<98>>) }
Op(n, w, v, i) == [n |-> n, w |-> w, v |-> v, i |-> i]
Ops == { Op("Append", w, <<v>>, 0) : w \in {1, 2}, v \in Vs }
  \cup { Op("Append", w, << Scalar(10, <<>>), v >>, 0) : w \in {1, 2}, v \in Vs }
  \cup { Op("Set", w, <<v>>, i) : w \in {1, 2}, v \in Vs, i \in 0..MaxLen }
  \cup { Op(n, w, <<>>, i) : n \in {"Delete", "Lookup"}, w \in {1, 2}, i \in 0..MaxLen }
  \cup { Op(n, w, <<>>, 0) : n \in {"Reset", "Extend", "ExtendFromDocument", "Reread"}, w \in {1, 2} }
View(s) == [a1 |-> s[1], a2 |-> s[2], b1 |-> EncArr(s[1]), b2 |-> EncArr(s[2])]
Init == st = << <<>>, <<>> >> /\ PrintT("EDGE " \o ToJson([s |-> st]))
Step(op) == LET r == Do(st, op)
            IN /\ Len(r.st[1]) <= MaxLen /\ Len(r.st[2]) <= MaxLen
               /\ st' = r.st
               /\ PrintT("EDGE " \o ToJson([s |-> st, op |-> op, r |-> r.r, t |-> r.st, v |-> View(r.st)]))
Next == \E op \in Ops : Step(op)
Spec == Init /\ [][Next]_st
\* the encoding is dense: key i names the i-th value
DenseKeys == \A w \in {1, 2} : LET d == Decode(EncArr(st[w])) IN
                d.ok /\ Len(d.r) = Len(st[w]) /\ \A i \in 1..Len(d.r) : d.r[i].k = Digits(i - 1) /\ d.r[i].v = st[w][i]
DeleteShifts == \A w \in {1, 2}, i \in 0..(MaxLen - 1) :
   i < Len(st[w]) => LET s == Do(st, Op("Delete", w, <<>>, i)).st[w] IN
      Len(s) = Len(st[w]) - 1 /\ (\A j \in 1..i : s[j] = st[w][j]) /\ (\A j \in (i + 1)..Len(s) : s[j] = st[w][j + 1])
=============================================================================
