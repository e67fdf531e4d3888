------------------------------ MODULE JSONTree ------------------------------
(* JSON trees that are built by hand (package jsonx): objects and arrays are *)
(* kept by reference, copies are apart, and every number is a number.        *)
(*   S == [h: the containers [j, m: Seq([k, r, v])], r: the roots]           *)
(* a member with r > 0 is the container r, else it is the scalar v. A number *)
(* that JSON cannot express is a tree of kind "inf" with its bits.           *)
EXTENDS ExtJSON

NullT == T("null", <<>>, <<>>)
Empty == [h |-> <<>>, r |-> <<>>]
RECURSIVE TreeOf(_, _)
TreeOf(h, id) == T(h[id].j, <<>>, TLCEval([i \in 1..Len(h[id].m) |->
   Mem(h[id].m[i].k, IF h[id].m[i].r > 0 THEN TreeOf(h, h[id].m[i].r) ELSE h[id].m[i].v)]))
RECURSIVE Reach(_, _)
Reach(h, id) == {id} \cup UNION { Reach(h, h[id].m[i].r) : i \in { i \in 1..Len(h[id].m) : h[id].m[i].r > 0 } }

\* a copy of container id at the end of the heap: [h, id]
RECURSIVE CopyOf(_, _)
RECURSIVE CopyMembers(_, _, _)
CopyMembers(h, m, acc) ==
  IF m = <<>> THEN [h |-> h, m |-> acc]
  ELSE IF m[1].r = 0 THEN CopyMembers(h, Tail(m), Append(acc, m[1]))
  ELSE LET c == CopyOf(h, m[1].r) IN CopyMembers(c.h, Tail(m), Append(acc, [m[1] EXCEPT !.r = c.id]))
CopyOf(h, id) == LET c == CopyMembers(h, h[id].m, <<>>)
                 IN  [h |-> Append(c.h, [j |-> h[id].j, m |-> c.m]), id |-> Len(c.h) + 1]

KeyIn(h, id, k) == IF h[id].j = "arr" THEN <<>> ELSE k
Push(h, id, k, ref, v) == [h EXCEPT ![id].m = Append(@, [k |-> KeyIn(h, id, k), r |-> ref, v |-> v])]

\* op == [n, r, x: roots, i: position, k: key, v: scalar, m: Seq([k, v])]
Possible(S, op) ==
  CASE op.n \in {"obj", "arr"} -> TRUE
    [] op.n = "nest" -> {op.r, op.x} \subseteq 1..Len(S.r) /\ S.r[op.r] \notin Reach(S.h, S.r[op.x])
    [] op.n = "take" -> op.r \in 1..Len(S.r) /\ op.i \in 1..Len(S.h[S.r[op.r]].m) /\ S.h[S.r[op.r]].m[op.i].r > 0
    [] op.n = "copymember" -> {op.r, op.x} \subseteq 1..Len(S.r) /\ op.i \in 1..Len(S.h[S.r[op.x]].m)
    [] OTHER -> op.r \in 1..Len(S.r)
DoTree(S, op) ==
  LET id == S.r[op.r]
      other == S.r[op.x]
      new(j, m) == Append(S.h, [j |-> j, m |-> m])
  IN CASE op.n \in {"obj", "arr"} -> [h |-> new(op.n, <<>>), r |-> Append(S.r, Len(S.h) + 1)]
       [] op.n = "add" -> [S EXCEPT !.h = Push(S.h, id, op.k, 0, op.v)]
       [] op.n \in {"addobj", "addarr"} ->
            LET j == SubSeq(op.n, 4, 6)
                m == [i \in 1..Len(op.m) |-> [k |-> IF j = "arr" THEN <<>> ELSE op.m[i].k, r |-> 0, v |-> op.m[i].v]]
            IN  [S EXCEPT !.h = Push(new(j, m), id, op.k, Len(S.h) + 1, NullT)]
       [] op.n = "nest" -> [S EXCEPT !.h = Push(S.h, id, op.k, other, NullT)]
       [] op.n = "copy" -> LET c == CopyOf(S.h, id) IN [h |-> c.h, r |-> Append(S.r, c.id)]
       [] op.n = "take" -> [S EXCEPT !.r = Append(@, S.h[id].m[op.i].r)]
       [] op.n = "copymember" ->
            LET e == S.h[other].m[op.i] IN
            IF e.r = 0 THEN [S EXCEPT !.h = Push(S.h, id, op.k, 0, e.v)]
            ELSE LET c == CopyOf(S.h, e.r) IN [S EXCEPT !.h = Push(c.h, id, op.k, c.id, NullT)]
Roots(S) == [i \in 1..Len(S.r) |-> TreeOf(S.h, S.r[i])]

\* can it be written?
RECURSIVE Finite(_)
Finite(t) == t.j # "inf" /\ \A i \in 1..Len(t.e) : Finite(t.e[i].v)
\* the one accessor that gives the value
Accessor(t) == CASE t.j = "str" -> << "string" >>
                 [] t.j \in {"true", "false"} -> << "boolean" >>
                 [] t.j = "num" -> << IF IntToken(t.s) THEN "int" ELSE "float" >>
                 [] t.j = "inf" -> << "float" >>
                 [] t.j = "obj" -> << "document" >>
                 [] t.j = "arr" -> << "array" >>
                 [] OTHER -> <<>>
RECURSIVE Accessors(_)
Accessors(t) == Accessor(t) \o FlattenSeq([i \in 1..Len(t.e) |-> Accessors(t.e[i].v)])

(***** writing, in the plainest form ***************************************)
Comma(ss) == IF ss = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, s : a \o << 44 >> \o s, Head(ss), Tail(ss))
PlainStr(s) == << 34 >> \o FlattenSeq([i \in 1..Len(s) |-> IF s[i] \in {34, 92} THEN << 92, s[i] >> ELSE << s[i] >>]) \o << 34 >>
RECURSIVE WriteTree(_)
WriteTree(t) == CASE t.j = "str" -> PlainStr(t.s)
                  [] t.j = "num" -> t.s
                  [] t.j \in {"true", "false", "null"} -> A(t.j)
                  [] t.j = "arr" -> << 91 >> \o Comma([i \in 1..Len(t.e) |-> WriteTree(t.e[i].v)]) \o << 93 >>
                  [] t.j = "obj" -> << 123 >> \o Comma([i \in 1..Len(t.e) |-> PlainStr(t.e[i].k) \o << 58 >> \o WriteTree(t.e[i].v)]) \o << 125 >>
=============================================================================
