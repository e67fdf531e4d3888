------------------------------- MODULE ArrOps -------------------------------
(***************************************************************************)
(* An array is a sequence of values; its encoding numbers them 0..n-1.      *)
(*   st == << values of array 1, values of array 2 >>                       *)
(***************************************************************************)
EXTENDS BSON

Other(w) == 3 - w
None == [ok |-> FALSE, v |-> <<>>]
Some(v) == [ok |-> TRUE, v |-> << v >>]
Done == [ok |-> TRUE, v |-> <<>>]
Panics == [ok |-> FALSE, v |-> <<>>, panic |-> TRUE]
Without(a, i) == SubSeq(a, 1, i - 1) \o SubSeq(a, i + 1, Len(a))
AsElems(a) == [i \in 1..Len(a) |-> Elem(Digits(i - 1), a[i])]
EncArr(a) == EncDoc(AsElems(a))

\* op == [n, w, v: values, i: index]
Do(st, op) ==
  LET a == st[op.w]
      o == st[Other(op.w)]
      upd(x) == [st |-> [st EXCEPT ![op.w] = x], r |-> Done]
      ret(x) == [st |-> st, r |-> x]
  IN CASE op.n = "Append" -> upd(a \o op.v)
       [] op.n = "Set" -> IF op.i < Len(a) THEN upd([a EXCEPT ![op.i + 1] = op.v[1]]) ELSE ret(Panics)
       [] op.n = "Delete" -> IF op.i < Len(a)
                             THEN [st |-> [st EXCEPT ![op.w] = Without(a, op.i + 1)], r |-> Some(a[op.i + 1])]
                             ELSE ret(None)
       [] op.n = "Lookup" -> ret(IF op.i < Len(a) THEN Some(a[op.i + 1]) ELSE None)
       [] op.n = "Reset" -> upd(<<>>)
       [] op.n \in {"Extend", "ExtendFromDocument"} -> upd(a \o o)
       [] op.n = "Reread" -> upd(o)
       [] OTHER -> ret(Done)
=============================================================================
