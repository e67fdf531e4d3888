----------------------------- MODULE ValueModel -----------------------------
(* All histories of two container values that are copied, changed in place   *)
(* and written; every transition is emitted for replay.                      *)
EXTENDS ValueOps, Json
CONSTANTS MaxLen
VARIABLES st, h      \* h: how the values came about and were last touched (not observable)
KA == <<97>>
Int1 == Scalar(16, <<1, 0, 0, 0>>)
Code == <<120>>
Empty(t) == MkV(t, IF t = 15 THEN Code ELSE <<>>, <<>>, <<>>)
Wrap(t, v) == MkV(t, IF t = 15 THEN Code ELSE <<>>, <<>>, << Elem(KA, v) >>)
Starts == { Empty(t) : t \in {3, 4, 15} } \cup { Wrap(t, Empty(u)) : t \in {3, 4, 15}, u \in {3, 4, 15} }
E1 == Elem(KA, Int1)
Names == {"Copy", "ElemCopy", "Reread", "DocReread", "Append", "AppendNested", "DeleteFirst", "Marshal", "Read"}
Ops == { [n |-> n, w |-> w, e |-> E1] : n \in Names, w \in {1, 2} }
         \cup { [n |-> "Start", w |-> 1, e |-> Elem(KA, s)] : s \in Starts }
NormE(v) == NormV(v)
View(s) == [a |-> NormV(s[1]), b |-> NormV(s[2]), eq |-> EqV(s[1], s[2]),
            ea |-> EncElem(KA, s[1]), eb |-> EncElem(KA, s[2])]
Blank == << Empty(3), Empty(3) >>
StepTo(op) == IF op.n = "Start" THEN << op.e.v, op.e.v >> ELSE Do(st, op)
Size(v) == Len(v.e) + (IF HasNested(v) THEN Len(v.e[1].v.e) ELSE 0)
Init == st = Blank /\ h = <<"", "", "">> /\ PrintT("EDGE " \o ToJson([s |-> << st, h >>]))
Hist(op) == CASE op.n = "Start" -> <<"Start", "", "">>
              [] op.n \in {"Copy", "ElemCopy", "Reread", "DocReread"} -> << op.n, "", "" >>
              [] op.n \in {"Append", "AppendNested", "DeleteFirst"} -> [h EXCEPT ![op.w + 1] = IF @ = "" THEN "t" ELSE @]
              [] OTHER -> [h EXCEPT ![op.w + 1] = IF @ = "t" THEN "m" ELSE @]
Next == \E op \in Ops :
          /\ op.n = "Start" => st = Blank
          /\ LET t == StepTo(op)
             IN /\ \A w \in {1, 2} : Len(t[w].e) <= MaxLen /\ Size(t[w]) <= MaxLen + 1
                /\ st' = t /\ h' = Hist(op)
                /\ PrintT("EDGE " \o ToJson([s |-> << st, h >>, op |-> op, r |-> 0, t |-> << t, Hist(op) >>, v |-> View(t)]))
Spec == Init /\ [][Next]_<< st, h >>

\* writing, reading and comparing never change anything; a change to one value
\* is confined to it; equality is an equivalence that sees every change
Frame == \A op \in Ops : op.n \notin {"Start"} =>
   LET t == Do(st, op) IN
     /\ op.n \in {"Marshal", "Read"} => t = st
     /\ op.n \in {"Append", "AppendNested", "DeleteFirst"} => t[3 - op.w] = st[3 - op.w]
     /\ op.n = "Append" => ~EqV(t[op.w], st[op.w])
     /\ op.n \in {"Copy", "ElemCopy", "Reread", "DocReread"} => EqV(t[1], t[2])
EqIsEncoding == EqV(st[1], st[2]) <=> (EncElem(KA, st[1]) = EncElem(KA, st[2]))
=============================================================================
