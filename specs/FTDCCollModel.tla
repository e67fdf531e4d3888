---------------------------- MODULE FTDCCollModel ---------------------------
(* All histories of every collector over a few documents; each transition is *)
(* emitted.  ghost: every sample accepted and not discarded, in order.        *)
EXTENDS FTDCColl, Json
CONSTANTS MaxPending, Sizes
VARIABLES st
I(c, n) == Elem(<< c >>, Scalar(18, << n, 0, 0, 0, 0, 0, 0, 0 >>))
D1 == << I(97, 1) >>
D2 == << I(97, 5) >>
D3 == << I(97, 1), I(98, 2) >>                        \* one more metric
D4 == << Elem(<< 97 >>, Scalar(8, << 1 >>)) >>        \* another type
D5 == << I(98, 1) >>                                  \* another key
Docs(k) == IF k \in Dynamic THEN {D1, D2, D3, D4, D5} ELSE {D1, D2, D3, D4}
M1 == << Elem(<< 109 >>, Scalar(2, << 120 >>)) >>
Op(n, k, m, d) == [n |-> n, k |-> k, m |-> m, d |-> d]
None == New("none", 0)
Ops(s) ==
  IF s.k = "none" THEN {Op("new", k, m, <<>>) : k \in Kinds, m \in Sizes}
  ELSE {Op("add", "", 0, << d >>) : d \in Docs(s.k)}
    \cup (IF (Full(s) /\ s.k \in Stream) \/ s.k = "once" THEN {} ELSE {Op("addbad", "", 0, <<>>)})
    \cup (IF s.k = "writer" THEN {Op("close", "", 0, <<>>)}
          ELSE {Op("meta", "", 0, << M1 >>), Op("meta", "", 0, <<>>)} \cup {Op(n, "", 0, <<>>) : n \in {"metabad", "resolve", "reset", "flush", "flushbad", "flushshort", "flushnil"}})
    \cup (IF s.k \in Stream THEN {Op("writer", "", 1 - (IF s.fail THEN 1 ELSE 0), <<>>)} ELSE {})
Emit(op, r) == PrintT("EDGE " \o ToJson([s |-> st, op |-> op, r |-> [ok |-> r.ok, w |-> r.w, r |-> r.r], t |-> r.st, v |-> CView(r.st)]))
Init == st = None /\ PrintT("EDGE " \o ToJson([s |-> st]))
Next == \E op \in Ops(st) : LET r == CDo(st, op) IN Count(r.st) <= MaxPending /\ st' = r.st /\ Emit(op, r)
Spec == Init /\ [][Next]_st

\* laws: no step loses, repeats or reorders an accepted sample
Pend(s) == FlattenSeq(s.ch)
\* a step that neither resets nor flushes to the caller keeps: written \o pending' = pending \o added
SamplesOf(s, emptied) == IF emptied THEN Pend(s) ELSE <<>>
NoLoss == \A op \in Ops(st) : LET r == CDo(st, op)
                                  emptied == r.w # <<>> \/ (op.n = "flush" /\ r.ok)
                                  gone == IF op.n \in {"reset", "new"} THEN Pend(st) ELSE <<>>
                                  added == IF op.n = "add" /\ r.ok /\ ~(st.k = "once" /\ st.skip) THEN op.d ELSE <<>>
                              IN  gone \o SamplesOf(st, emptied) \o Pend(r.st) = Pend(st) \o added
FailChangesNothing == \A op \in Ops(st) : LET r == CDo(st, op) IN ~r.ok => r.st = st /\ r.w = <<>> /\ r.r = <<>>
ChunksAreUniform == \A q \in 1..Len(st.ch) : \A j \in 1..Len(st.ch[q]) : SameSchema(st.k, st.ch[q][1], st.ch[q][j])
ChunksFit == st.k # "none" => \A q \in 1..Len(st.ch) : Len(st.ch[q]) \in 1..Capacity(st)
OneChunk == st.k \notin Multi => Len(st.ch) <= 1
=============================================================================
