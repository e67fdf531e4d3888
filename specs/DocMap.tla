------------------------------- MODULE DocMap -------------------------------
(* Maps of elements (birch.DocumentMap) and the document they come from.     *)
(*   S == [d: the document, a sequence of elements, ms: the maps]            *)
(* a map is a set of [k: the key in the map, e: the element] with at most    *)
(* one for each k; an element of type 0 is a nil element.                    *)
EXTENDS DocOps

Empty == [d |-> <<>>, ms |-> <<>>]
KeysOf(m) == { x.k : x \in m }
ElemKeys(es) == { es[i].k : i \in 1..Len(es) }
\* the first element of every key
FirstMap(d) == { [k |-> d[i].k, e |-> d[i]] : i \in { i \in 1..Len(d) : \A j \in 1..(i - 1) : d[j].k # d[i].k } }
WithoutKeys(m, ks) == { x \in m : x.k \notin ks }
\* every element has its own key
ValidMap(m) == \A x \in m : x.e.v.t # 0 /\ x.k = x.e.k
\* the maps that a document may be read to: one of the elements of each key
Readings(m, es) == { x \in SUBSET (m \cup { [k |-> es[i].k, e |-> es[i]] : i \in 1..Len(es) }) :
   /\ KeysOf(x) = KeysOf(m) \cup ElemKeys(es) /\ Cardinality(x) = Cardinality(KeysOf(x))
   /\ \A y \in x : IF y.k \in ElemKeys(es) THEN \E i \in 1..Len(es) : y.e = es[i] /\ y.k = es[i].k ELSE y \in m }
MayRead(m, es, new) ==
   /\ KeysOf(new) = KeysOf(m) \cup ElemKeys(es) /\ Cardinality(new) = Cardinality(KeysOf(new))
   /\ \A y \in new : IF y.k \in ElemKeys(es) THEN \E i \in 1..Len(es) : y.e = es[i] /\ y.k = es[i].k ELSE y \in m

\* op == [n, m: map, k: key, e: elements, b: bytes]
Reads == {"UnmarshalDocument", "UnmarshalBSON"}
Writes == {"Validate", "MarshalDocument", "MarshalBSON"}
Possible(S, op) == op.n \in {"Append", "Set", "Delete", "Reset", "Map", "New"} \/ op.m \in 1..Len(S.ms)
\* for the operations that are not reads
DoMap(S, op) ==
  LET m == S.ms[op.m]
      doc(x) == [S EXCEPT !.d = x]
      put(x) == [S EXCEPT !.ms[op.m] = x]
  IN CASE op.n = "Append" -> doc(S.d \o op.e)
       [] op.n = "Set" -> doc(Do(<< S.d, <<>> >>, [n |-> "Set", w |-> 1, e |-> op.e]).st[1])
       [] op.n = "Delete" -> doc(Do(<< S.d, <<>> >>, [n |-> "Delete", w |-> 1, k |-> op.k]).st[1])
       [] op.n = "Reset" -> doc(<<>>)
       [] op.n = "Map" -> [S EXCEPT !.ms = Append(@, FirstMap(S.d))]
       [] op.n = "New" -> [S EXCEPT !.ms = Append(@, {})]
       [] op.n = "Copy" -> [S EXCEPT !.ms = Append(@, m)]
       [] op.n = "Put" -> put(WithoutKeys(m, {op.k}) \cup { [k |-> op.k, e |-> op.e[1]] })
       [] op.n = "Drop" -> put(WithoutKeys(m, {op.k}))
       [] OTHER -> S
\* a document written from a map has its elements, in any order
IsWritten(m, es) == Len(es) = Cardinality(m) /\ { [k |-> es[i].k, e |-> es[i]] : i \in 1..Len(es) } = m
=============================================================================
