------------------------------ MODULE ValueOps ------------------------------
(***************************************************************************)
(* A value seen through its typed accessors, through equality and through   *)
(* copying.                                                                 *)
(***************************************************************************)
EXTENDS BSON

\* accessor name -> the types it answers for
AccTypes(a) ==
  CASE a = "Double" -> {1}      [] a = "StringValue" -> {2}   [] a = "ReaderDocument" -> {3}
    [] a = "MutableDocument" -> {3} [] a = "ReaderArray" -> {4} [] a = "MutableArray" -> {4}
    [] a = "Binary" -> {5}      [] a = "ObjectID" -> {7}      [] a = "Boolean" -> {8}
    [] a = "DateTime" -> {9}    [] a = "Time" -> {9}          [] a = "Regex" -> {11}
    [] a = "DBPointer" -> {12}  [] a = "JavaScript" -> {13}   [] a = "Symbol" -> {14}
    [] a = "ReaderJavaScriptWithScope" -> {15} [] a = "MutableJavaScriptWithScope" -> {15}
    [] a = "Int32" -> {16}      [] a = "Timestamp" -> {17}    [] a = "Int64" -> {18}
    [] a = "Int" -> {16, 18}    [] a = "Decimal128" -> {19}
    [] OTHER -> {}

\* Int() gives the number as 8 little-endian bytes whatever its width
SignExt(s) == IF Len(s) = 8 THEN s
              ELSE s \o [i \in 1..(8 - Len(s)) |-> IF s[Len(s)] >= 128 THEN 255 ELSE 0]
AccResult(a, v) == IF a = "Int" THEN Scalar(18, SignExt(v.s)) ELSE v

\* same content, whatever the representation (index keys of arrays implied)
EqV(a, b) == NormV(a) = NormV(b)

(***** two containers that may be copied, changed and written ***************)
\* st == << value 1, value 2 >>; the inner document of the container, and the
\* document nested at its first element, can be changed in place
Inner(v) == v.e
Touched(v, e) == [v EXCEPT !.e = Append(@, e)]
HasNested(v) == Len(v.e) > 0 /\ v.e[1].v.t \in {3, 4, 15}
TouchedNested(v, e) == [v EXCEPT !.e[1].v.e = Append(@, e)]
Do(st, op) ==
  LET v == st[op.w]
      o == 3 - op.w
      upd(x) == [st EXCEPT ![op.w] = x]
  IN CASE op.n \in {"Copy", "ElemCopy", "Reread", "DocReread"} -> [st EXCEPT ![o] = v]
       [] op.n = "Append" -> upd(Touched(v, op.e))
       [] op.n = "AppendNested" -> IF HasNested(v) THEN upd(TouchedNested(v, op.e)) ELSE st
       [] op.n = "DeleteFirst" -> IF v.e = <<>> THEN st ELSE upd([v EXCEPT !.e = Tail(@)])
       [] OTHER -> st       \* Marshal, Read, Equal: no effect
=============================================================================
