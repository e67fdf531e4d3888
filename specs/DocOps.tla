------------------------------- MODULE DocOps -------------------------------
(***************************************************************************)
(* A document is an ordered sequence of elements with map-like access by    *)
(* key (first occurrence wins).  The state holds two documents, so that     *)
(* copying, extending and re-reading between documents can be told apart    *)
(* from sharing.                                                            *)
(*   st == << elements of document 1, elements of document 2 >>             *)
(***************************************************************************)
EXTENDS BSON

Other(w) == 3 - w
HasKey(d, k) == \E i \in 1..Len(d) : d[i].k = k
FirstIdx(d, k) == CHOOSE i \in 1..Len(d) : d[i].k = k /\ \A j \in 1..(i-1) : d[j].k # k

AllZero(s) == \A i \in 1..Len(s) : s[i] = 0
\* double zero is empty whatever its sign
ZeroDouble(s) == /\ \A i \in 1..7 : s[i] = 0
                 /\ s[8] \in {0, 128}
IsEmptyV(v) == CASE v.t = 1 -> ZeroDouble(v.s)
                 [] v.t \in {2, 5, 11, 12, 13, 14, 15} -> v.s = <<>>
                 [] v.t \in {3, 4} -> v.e = <<>>
                 [] v.t \in {7, 8, 9, 16, 17, 18, 19} -> AllZero(v.s)
                 [] v.t = 6 -> TRUE
                 [] OTHER -> FALSE

(***** ordering used by Sorted: key, then type, then (some) values *********)
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE
                 ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1]
                 ELSE LexLess(Tail(a), Tail(b))
BE(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
NegLE(s) == s[Len(s)] >= 128
SignedLess(a, b) == IF NegLE(a) # NegLE(b) THEN NegLE(a) ELSE LexLess(BE(a), BE(b))
DoubleLess(a, b) == IF ZeroDouble(a) /\ ZeroDouble(b) THEN FALSE
                    ELSE IF NegLE(a) # NegLE(b) THEN NegLE(a)
                    ELSE IF NegLE(a) THEN LexLess(BE(b), BE(a)) ELSE LexLess(BE(a), BE(b))
ValLess(a, b) == CASE a.t = 1 -> DoubleLess(a.s, b.s)
                   [] a.t = 2 -> LexLess(a.s, b.s)
                   [] a.t = 7 -> LexLess(a.s, b.s)
                   [] a.t \in {9, 16, 18} -> SignedLess(a.s, b.s)
                   [] OTHER -> FALSE
ElemLess(a, b) == IF a.k # b.k THEN LexLess(a.k, b.k)
                  ELSE IF a.v.t # b.v.t THEN a.v.t < b.v.t
                  ELSE ValLess(a.v, b.v)
RECURSIVE InsertSorted(_, _)
\* stable: the new element goes after everything that is not greater
InsertSorted(s, e) == IF s = <<>> THEN << e >>
                      ELSE IF ElemLess(e, s[Len(s)])
                      THEN Append(InsertSorted(SubSeq(s, 1, Len(s) - 1), e), s[Len(s)])
                      ELSE Append(s, e)
SortedElems(d) == FoldLeft(InsertSorted, <<>>, d)

(***** path lookup: first match at each level, no backtracking *************)
NotFound == [ok |-> FALSE, e |-> <<>>]
Found(e) == [ok |-> TRUE, e |-> << e >>]
RECURSIVE SearchDoc(_, _)
RECURSIVE SearchVal(_, _)
SearchVal(v, ks) == IF v.t \in {3, 4} THEN SearchDoc(IF v.t = 4 THEN IndexKeys(v.e) ELSE v.e, ks) ELSE NotFound
SearchDoc(d, ks) == IF ks = <<>> \/ ~HasKey(d, ks[1]) THEN NotFound
                    ELSE LET e == d[FirstIdx(d, ks[1])]
                         IN  IF Len(ks) = 1 THEN Found(e) ELSE SearchVal(e.v, Tail(ks))

Without(d, i) == SubSeq(d, 1, i - 1) \o SubSeq(d, i + 1, Len(d))
NoRes == [ok |-> TRUE, e |-> <<>>]

(***************************************************************************)
(* One operation: op == [n: name, w: document, e: elements, k: key,         *)
(*                       i: index, ks: path]                                *)
(***************************************************************************)
Do(st, op) ==
  LET d == st[op.w]
      o == st[Other(op.w)]
      upd(x) == [st |-> [st EXCEPT ![op.w] = x], r |-> NoRes]
      oth(x) == [st |-> [st EXCEPT ![Other(op.w)] = x], r |-> NoRes]
      ret(x) == [st |-> st, r |-> x]
  IN CASE op.n = "Append" -> upd(d \o op.e)
       [] op.n = "AppendOmitEmpty" -> upd(d \o SelectSeq(op.e, LAMBDA x : ~IsEmptyV(x.v)))
       [] op.n = "Set" -> LET e == op.e[1]
                          IN IF HasKey(d, e.k) THEN upd([d EXCEPT ![FirstIdx(d, e.k)] = e]) ELSE upd(Append(d, e))
       [] op.n = "Delete" -> IF HasKey(d, op.k)
                             THEN LET i == FirstIdx(d, op.k)
                                  IN [st |-> [st EXCEPT ![op.w] = Without(d, i)], r |-> Found(d[i])]
                             ELSE ret(NotFound)
       [] op.n = "SetValue" -> IF HasKey(d, op.k)
                             THEN upd([d EXCEPT ![FirstIdx(d, op.k)] = Elem(op.k, op.e[1].v)])
                             ELSE ret(NoRes)
       [] op.n = "Reset" -> upd(<<>>)
       [] op.n = "Extend" -> upd(d \o o)
       [] op.n = "UnmarshalDocument" -> upd(d \o o)
       [] op.n = "CopyTo" -> oth(d)
       [] op.n = "SortedTo" -> oth(SortedElems(d))
       [] op.n \in {"UnmarshalBSON", "ReadFrom"} -> upd(o)
       [] op.n = "Lookup" -> ret(IF HasKey(d, op.k) THEN Found(d[FirstIdx(d, op.k)]) ELSE NotFound)
       [] op.n = "ElementAt" -> ret(IF op.i < Len(d) THEN Found(d[op.i + 1]) ELSE NotFound)
       [] op.n = "Search" -> ret(SearchDoc(d, op.ks))
       [] OTHER -> ret(NoRes)

\* the by-key view of a document: per key of the universe, the first element
KeyView(d, ku) == [i \in 1..Len(ku) |-> IF HasKey(d, ku[i]) THEN << d[FirstIdx(d, ku[i])].v >> ELSE <<>>]
=============================================================================
