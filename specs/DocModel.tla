------------------------------ MODULE DocModel ------------------------------
(* All histories of two small documents; every transition is emitted.       *)
EXTENDS DocOps, Json

CONSTANTS MaxLen
VARIABLE st
KA == <<97>>
KB == <<98>>
KU == << KA, KB, <<99>> >>
V0 == Scalar(16, <<0, 0, 0, 0>>)
V1 == Scalar(16, <<1, 0, 0, 0>>)
Es == { Elem(k, v) : k \in {KA, KB}, v \in {V0, V1} }
Op(n, w, e, k, i, ks) == [n |-> n, w |-> w, e |-> e, k |-> k, i |-> i, ks |-> ks]
Plain(n, w) == Op(n, w, <<>>, <<>>, 0, <<>>)
Ops == { Op(n, w, <<e>>, <<>>, 0, <<>>) : n \in {"Append", "AppendOmitEmpty", "Set"}, w \in {1, 2}, e \in Es }
  \cup { Op(n, w, <<>>, k, 0, <<>>) : n \in {"Delete", "Lookup"}, w \in {1, 2}, k \in {KA, KB} }
  \cup { Op("ElementAt", w, <<>>, <<>>, i, <<>>) : w \in {1, 2}, i \in 0..2 }
  \cup { Plain(n, w) : n \in {"Reset", "Extend", "CopyTo", "SortedTo", "UnmarshalBSON", "ReadFrom", "UnmarshalDocument"}, w \in {1, 2} }
  \cup { Op("SetValue", 1, << Elem(KA, V1) >>, KA, 0, <<>>) }

View(s) == [d1 |-> s[1], d2 |-> s[2], v1 |-> KeyView(s[1], KU), v2 |-> KeyView(s[2], KU), ku |-> KU]

Init == st = << <<>>, <<>> >> /\ PrintT("EDGE " \o ToJson([s |-> st]))
Step(op) == LET r == Do(st, op)
            IN /\ Len(r.st[1]) <= MaxLen /\ Len(r.st[2]) <= MaxLen
               /\ st' = r.st
               /\ PrintT("EDGE " \o ToJson([s |-> st, op |-> op, r |-> r.r, t |-> r.st, v |-> View(r.st)]))
Next == \E op \in Ops : Step(op)
Spec == Init /\ [][Next]_st

Keys(d) == { d[i].k : i \in 1..Len(d) }
\* the laws the operations promise
SetThenLookup == \A w \in {1, 2}, e \in Es :
   LET s == Do(st, Op("Set", w, <<e>>, <<>>, 0, <<>>)).st[w]
   IN /\ s[FirstIdx(s, e.k)] = e
      /\ Len(s) = Len(st[w]) + (IF HasKey(st[w], e.k) THEN 0 ELSE 1)
DeleteRemovesOne == \A w \in {1, 2}, k \in {KA, KB} :
   LET r == Do(st, Op("Delete", w, <<>>, k, 0, <<>>))
   IN r.r.ok => Len(r.st[w]) = Len(st[w]) - 1 /\ r.st[Other(w)] = st[Other(w)]
SortedIsPermutation == \A w \in {1, 2} :
   LET s == SortedElems(st[w])
   IN /\ Len(s) = Len(st[w])
      /\ \A e \in Es : Cardinality({i \in 1..Len(s) : s[i] = e}) = Cardinality({i \in 1..Len(s) : st[w][i] = e})
      /\ \A i \in 1..(Len(s) - 1) : ~ElemLess(s[i + 1], s[i])
=============================================================================
