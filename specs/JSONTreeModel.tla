--------------------------- MODULE JSONTreeModel ---------------------------
(* All short histories of JSON trees that are built, nested, copied and      *)
(* changed; each is emitted.                                                 *)
EXTENDS JSONTree, Json
CONSTANTS MaxOps, MaxRoots
VARIABLES S, h
vars == << S, h >>
KA == <<97>>
Op(n, r, x, i, k, v, m) == [n |-> n, r |-> r, x |-> x, i |-> i, k |-> k, v |-> v, m |-> m]
I1 == T("num", A("1"), <<>>)
S1 == T("str", <<34, 92>>, <<>>)
D1 == T("num", A("1e+00"), <<>>)
R == 1..Len(S.r)
Ops == { Op(n, 1, 1, 1, <<>>, NullT, <<>>) : n \in {"obj", "arr"} }
  \cup { Op("add", r, 1, 1, KA, v, <<>>) : r \in R, v \in {I1, S1} }
  \cup { Op("addobj", r, 1, 1, KA, NullT, << [k |-> <<>>, v |-> D1] >>) : r \in R }
  \cup { Op("addarr", r, 1, 1, KA, NullT, << [k |-> <<>>, v |-> T("true", <<>>, <<>>)] >>) : r \in R }
  \cup { Op("nest", r, x, 1, KA, NullT, <<>>) : r \in R, x \in R }
  \cup { Op("copy", r, 1, 1, <<>>, NullT, <<>>) : r \in R }
  \cup { Op("take", r, 1, i, <<>>, NullT, <<>>) : r \in R, i \in 1..2 }
  \cup { Op("copymember", r, x, i, KA, NullT, <<>>) : r \in R, x \in R, i \in 1..2 }
Fresh == {"obj", "arr", "copy", "take"}
Init == S = Empty /\ h = <<>>
Next == /\ Len(h) < MaxOps
        /\ \E op \in Ops : /\ Possible(S, op) /\ (op.n \in Fresh => Len(S.r) < MaxRoots)
                           /\ S' = DoTree(S, op) /\ h' = Append(h, op)
Spec == Init /\ [][Next]_vars
Emit == Len(h) = MaxOps => PrintT("CASE " \o ToJson([ops |-> h]))
\* what is written is read back as the same tree
Back == \A i \in R : LET t == TreeOf(S.h, S.r[i]) IN ParseJSON(WriteTree(t)).ok /\ ParseJSON(WriteTree(t)).r = t
\* a copy is equal to what it was copied from, and has nothing in common with anything
CopiesApart == \A i \in R : LET c == DoTree(S, Op("copy", i, 1, 1, <<>>, NullT, <<>>)) IN
   /\ TreeOf(c.h, c.r[Len(c.r)]) = TreeOf(S.h, S.r[i])
   /\ \A j \in R : Reach(c.h, c.r[Len(c.r)]) \cap Reach(c.h, c.r[j]) = {}
\* changing one root changes only those that hold it
Frame == [][\A i \in R : (h' # h /\ h'[Len(h')].n \notin Fresh /\ S.r[h'[Len(h')].r] \notin Reach(S.h, S.r[i]))
              => TreeOf(S'.h, S.r[i]) = TreeOf(S.h, S.r[i])]_vars
=============================================================================
