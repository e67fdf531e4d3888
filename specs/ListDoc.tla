------------------------------ MODULE ListDoc ------------------------------
(* The list form of a document (x/blist): the same ordered map as DocOps     *)
(* kept as a linked list, with both ends open. The state is the sequence of  *)
(* its elements. An element of type 0 in an argument is a nil element.       *)
EXTENDS DocOps

IsNil(e) == e.v.t = 0
NilAt(es) == IF \E i \in 1..Len(es) : IsNil(es[i]) THEN CHOOSE i \in 1..Len(es) : IsNil(es[i]) /\ \A j \in 1..(i-1) : ~IsNil(es[j]) ELSE Len(es) + 1
R0(d) == [d |-> d, ok |-> TRUE, e |-> <<>>]
Panics(d) == [d |-> d, ok |-> FALSE, e |-> <<>>]
Got(d, e) == [d |-> d, ok |-> TRUE, e |-> << e >>]

\* the possible results of an operation on d: the new state, whether the
\* call returns (it panics for nil elements), and the element returned.
\* A nil element in the middle leaves those before it. The order of several
\* elements that are put in front is not fixed.
DoList(d, op) ==
  LET good == SubSeq(op.e, 1, NilAt(op.e) - 1)
      res(x) == IF Len(good) = Len(op.e) THEN R0(x) ELSE Panics(x)
  IN CASE op.n = "Append" -> { res(d \o good) }
       [] op.n = "AppendOmitEmpty" -> { R0(d \o SelectSeq(op.e, LAMBDA x : ~IsNil(x) /\ ~IsEmptyV(x.v))) }
       [] op.n = "Prepend" -> { res(good \o d), res(Reverse(good) \o d) }
       [] op.n = "Set" -> IF IsNil(op.e[1]) THEN { Panics(d) }
                          ELSE { R0(Do(<< d, <<>> >>, [n |-> "Set", w |-> 1, e |-> op.e]).st[1]) }
       [] op.n = "Delete" -> LET r == Do(<< d, <<>> >>, [n |-> "Delete", w |-> 1, k |-> op.k])
                             IN { IF r.r.ok THEN Got(r.st[1], r.r.e[1]) ELSE R0(d) }
       [] op.n = "PushBack" -> { R0(Append(d, op.e[1])) }
       [] op.n = "PushFront" -> { R0(op.e \o d) }
       [] op.n = "PopFront" -> { IF d = <<>> THEN R0(d) ELSE Got(Tail(d), d[1]) }
       [] op.n = "PopBack" -> { IF d = <<>> THEN R0(d) ELSE Got(SubSeq(d, 1, Len(d) - 1), d[Len(d)]) }
       [] op.n = "Reset" -> { R0(<<>>) }
SizeOf(d) == Len(EncDoc(d))
=============================================================================
