----------------------------- MODULE DocMapModel -----------------------------
(* All short histories of a document and maps of it; each is emitted.        *)
EXTENDS DocMap, Json
CONSTANTS MaxOps, MaxMaps
VARIABLES S, h
vars == << S, h >>
KA == <<97>>
A0 == Elem(KA, Scalar(16, <<0, 0, 0, 0>>))
A1 == Elem(KA, Scalar(2, <<120>>))
B1 == Elem(<<>>, Scalar(10, <<>>))
NilE == Elem(<<>>, MkV(0, <<>>, <<>>, <<>>))
Op(n, m, k, e, b) == [n |-> n, m |-> m, k |-> k, e |-> e, b |-> b]
M == 1..Len(S.ms)
Bytes1 == EncDoc(<< B1, A1 >>)
Ops == { Op("Append", 1, <<>>, << A0, A1 >>, <<>>), Op("Set", 1, <<>>, << B1 >>, <<>>), Op("Delete", 1, KA, <<>>, <<>>) }
  \cup { Op(n, 1, <<>>, <<>>, <<>>) : n \in {"Map", "New"} }
  \cup { Op(n, m, <<>>, <<>>, <<>>) : n \in {"Copy"} \cup Writes, m \in M }
  \cup { Op("Put", m, k, << e >>, <<>>) : m \in M, k \in {KA}, e \in {A1, B1, NilE} }
  \cup { Op("Drop", m, KA, <<>>, <<>>) : m \in M }
  \cup { Op("UnmarshalDocument", m, <<>>, es, <<>>) : m \in M, es \in { << B1, A0, A1 >> } }
  \cup { Op("UnmarshalBSON", m, <<>>, <<>>, b) : m \in M, b \in { Bytes1, SubSeq(Bytes1, 1, 12) } }
Fresh == {"Map", "New", "Copy"}
Init == S = Empty /\ h = <<>>
Next == /\ Len(h) < MaxOps
        /\ \E op \in Ops :
             /\ op.n \in Fresh => Len(S.ms) < MaxMaps
             /\ h' = Append(h, op)
             /\ IF op.n \in Reads
                THEN LET es == IF op.n = "UnmarshalDocument" THEN op.e ELSE IF WellFormed(op.b) THEN Decode(op.b).r ELSE <<>>
                     IN  \E x \in Readings(S.ms[op.m], es) : S' = [S EXCEPT !.ms[op.m] = x]
                ELSE S' = DoMap(S, op)
Spec == Init /\ [][Next]_vars
Emit == Len(h) = MaxOps => PrintT("CASE " \o ToJson([ops |-> h]))
OneForEachKey == \A i \in M : Cardinality(S.ms[i]) = Cardinality(KeysOf(S.ms[i]))
\* the map of a document is valid and has exactly its keys; what is written
\* from it is read back to it; both ways to say what may be read agree
OfDoc == LET m == FirstMap(S.d) IN
   /\ ValidMap(m) /\ KeysOf(m) = ElemKeys(S.d) /\ m \in Readings({}, S.d)
   /\ \A i \in M : \A x \in Readings(S.ms[i], S.d) : MayRead(S.ms[i], S.d, x)
\* only the map that an operation is on changes
Frame == [][\A i \in M : (S' # S /\ (h'[Len(h')].n \in Fresh \cup {"Append", "Set", "Delete"} \/ h'[Len(h')].m # i)) => S'.ms[i] = S.ms[i]]_vars
=============================================================================
