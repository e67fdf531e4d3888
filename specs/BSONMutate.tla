----------------------------- MODULE BSONMutate -----------------------------
(***************************************************************************)
(* Systematic damage: every small document, with one byte replaced, removed *)
(* or duplicated at every position, or cut short (optionally with a patched *)
(* length prefix).  Each damaged buffer is emitted with the verdict of the  *)
(* well-formedness predicate.                                               *)
(***************************************************************************)
EXTENDS BSONModel

VARIABLE buf
mvars == << doc, nest, buf >>

Vals == {0, 1, 2, 4, 5, 15, 127, 128, 255}
MInit == Init /\ buf = <<>>
Fix(b) == IF Len(b) < 4 THEN b ELSE LE32(Len(b)) \o SubSeq(b, 5, Len(b))
Damage(b) == { [b EXCEPT ![p] = v] : p \in 1..Len(b), v \in Vals }
       \cup  { [b EXCEPT ![p] = (b[p] + d) % 256] : p \in 1..Len(b), d \in {1, 255} }
       \cup  { SubSeq(b, 1, n) : n \in 0..Len(b) }
       \cup  { Fix(SubSeq(b, 1, n)) : n \in 0..Len(b) }
       \cup  { Fix(SubSeq(b, 1, p - 1) \o SubSeq(b, p + 1, Len(b))) : p \in 1..Len(b) }
       \cup  { Fix(SubSeq(b, 1, p) \o SubSeq(b, p, Len(b))) : p \in 1..Len(b) }
MNext == /\ buf = <<>>
         /\ \/ Next /\ buf' = <<>>
            \/ /\ UNCHANGED << doc, nest >>
               /\ \E b \in Damage(EncDoc(doc)) : buf' = b
MSpec == MInit /\ [][MNext]_mvars

\* whatever is accepted is the encoding of what was decoded (modulo array keys)
AcceptedMeansEncoded ==
  buf # <<>> => LET d == Decode(buf) IN
     d.ok => /\ d.n <= Len(buf)
             /\ Len(EncDoc(d.r)) = d.n \/ Norm(d.r) # d.r
             /\ Norm(d.r) = d.r => EncDoc(d.r) = SubSeq(buf, 1, d.n)
MEmit == buf = <<>> \/ LET d == Decode(buf) IN
           PrintT("CASE " \o ToJson([bytes |-> buf, ok |-> d.ok, n |-> d.n, doc |-> Norm(d.r)]))
=============================================================================
