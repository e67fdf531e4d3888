---------------------------- MODULE ListDocModel ----------------------------
(* All short histories of a list document; each maximal one is emitted.      *)
EXTENDS ListDoc, Json
CONSTANTS MaxOps
VARIABLES d, h
vars == << d, h >>
KA == <<97>>
KB == <<>>
A0 == Elem(KA, Scalar(16, <<0, 0, 0, 0>>))
A1 == Elem(KA, Scalar(2, <<120>>))
B1 == Elem(KB, Scalar(16, <<1, 0, 0, 0>>))
NilE == Elem(<<>>, MkV(0, <<>>, <<>>, <<>>))
Op(n, e, k) == [n |-> n, e |-> e, k |-> k]
Ops == { Op(n, e, <<>>) : n \in {"Append", "Prepend", "AppendOmitEmpty"}, e \in { <<A0>>, <<B1, A1>>, <<A1, NilE, B1>> } }
  \cup { Op("Set", <<e>>, <<>>) : e \in {A1, B1, NilE} } \cup { Op("Delete", <<>>, k) : k \in {KA, KB} }
  \cup { Op("PushFront", <<A1>>, <<>>), Op("PushBack", <<A0>>, <<>>), Op("PopFront", <<>>, <<>>), Op("PopBack", <<>>, <<>>), Op("Reset", <<>>, <<>>) }
Init == d = <<>> /\ h = <<>>
Next == Len(h) < MaxOps /\ \E op \in Ops : \E r \in DoList(d, op) : d' = r.d /\ h' = Append(h, op)
Spec == Init /\ [][Next]_vars
Emit == Len(h) = MaxOps => PrintT("CASE " \o ToJson([ops |-> h]))
\* the list agrees with the document it stands for
Agree == \A op \in Ops : op.n \in {"Append", "Set", "Delete", "AppendOmitEmpty"} /\ NilAt(op.e) > Len(op.e) =>
   \A r \in DoList(d, op) : r.d = Do(<< d, <<>> >>, [n |-> op.n, w |-> 1, e |-> op.e, k |-> op.k]).st[1]
Ends == \A x \in {A0, B1} :
   /\ \A r \in DoList(d, Op("Prepend", <<x>>, <<>>)) : \A q \in DoList(r.d, Op("PopFront", <<>>, <<>>)) : q.d = d /\ q.e = <<x>>
   /\ \A r \in DoList(d, Op("Append", <<x>>, <<>>)) : \A q \in DoList(r.d, Op("PopBack", <<>>, <<>>)) : q.d = d /\ q.e = <<x>>
DeletesFirst == \A k \in {KA, KB} : \A r \in DoList(d, Op("Delete", <<>>, k)) :
   IF HasKey(d, k) THEN r.e = << d[FirstIdx(d, k)] >> /\ Len(r.d) = Len(d) - 1 ELSE r.d = d /\ r.e = <<>>
=============================================================================
