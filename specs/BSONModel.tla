------------------------------ MODULE BSONModel ------------------------------
(***************************************************************************)
(* Exhaustive exploration of small documents.  A document grows by one     *)
(* element at a time and may be wrapped into a sub-document, an array or a  *)
(* scope; every reachable document is checked against the codec laws and    *)
(* emitted (with its expected bytes) for replay on the implementation.      *)
(***************************************************************************)
EXTENDS BSON, Json, IOUtils

CONSTANTS MaxLen, MaxNest

F64(hi) == << 0, 0, 0, 0, 0, 0 >> \o hi
Max64 == << 255, 255, 255, 255, 255, 255, 255, 127 >>
Min64 == << 0, 0, 0, 0, 0, 0, 0, 128 >>
Neg1  == << 255, 255, 255, 255, 255, 255, 255, 255 >>
Oid   == << 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 255 >>
Str(s) == Scalar(2, s)

Palette == {
  Scalar(1, F64(<<240, 63>>)), Scalar(1, F64(<<248, 127>>)), Scalar(1, F64(<<0, 128>>)),
  Str(<<>>), Str(<<97>>), Str(<<0>>), Str(<<195, 188, 0, 98>>),
  Scalar(13, <<102, 40, 41>>), Scalar(14, <<115>>), Scalar(14, <<>>),
  MkV(3, <<>>, <<>>, <<>>), MkV(4, <<>>, <<>>, <<>>),
  MkV(5, <<>>, <<0>>, <<>>), MkV(5, <<1, 2>>, <<0>>, <<>>), MkV(5, <<9>>, <<2>>, <<>>), MkV(5, <<>>, <<2>>, <<>>), MkV(5, <<7>>, <<128>>, <<>>),
  Scalar(6, <<>>), Scalar(7, Oid), Scalar(8, <<0>>), Scalar(8, <<1>>),
  Scalar(9, Neg1), Scalar(10, <<>>),
  MkV(11, <<97>>, <<105>>, <<>>), MkV(11, <<>>, <<>>, <<>>),
  MkV(12, <<110, 115>>, Oid, <<>>), MkV(12, <<>>, Oid, <<>>),
  MkV(15, <<99>>, <<>>, <<>>),
  Scalar(16, <<0, 0, 0, 128>>), Scalar(16, <<255, 255, 255, 127>>),
  Scalar(17, <<1, 0, 0, 0, 2, 0, 0, 0>>), Scalar(18, Max64), Scalar(18, Min64),
  Scalar(19, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>>),
  Scalar(255, <<>>), Scalar(127, <<>>) }
Small == { Str(<<97>>), Scalar(16, <<1, 0, 0, 0>>), Scalar(10, <<>>) }
Keys == { <<>>, <<97>> }

VARIABLES doc, nest
vars == << doc, nest >>

Init == doc = <<>> /\ nest = 0

Add(k, v) == /\ Len(doc) < MaxLen
             /\ doc' = Append(doc, Elem(k, v))
             /\ UNCHANGED nest

WrapDoc == /\ nest < MaxNest /\ nest' = nest + 1
           /\ doc' = << Elem(<<100>>, MkV(3, <<>>, <<>>, doc)) >>
WrapArr == /\ nest < MaxNest /\ nest' = nest + 1
           /\ doc' = << Elem(<<97, 114>>, MkV(4, <<>>, <<>>, IndexKeys(doc))) >>
WrapScope == /\ nest < MaxNest /\ nest' = nest + 1
             /\ doc' = << Elem(<<99>>, MkV(15, <<120, 59>>, <<>>, doc)) >>

Next == \/ \E k \in Keys, v \in Palette : nest = 0 /\ Add(k, v)
        \/ \E v \in Small : nest > 0 /\ Add(<<122>>, v)
        \/ WrapDoc \/ WrapArr \/ WrapScope

Spec == Init /\ [][Next]_vars

RoundTrip == LET b == EncDoc(doc) IN Decode(b) = Ok(Len(b), doc)
LengthIsSize == I32(EncDoc(doc), 1) = Len(EncDoc(doc))
TrailingIgnored == LET b == EncDoc(doc) IN Decode(b \o << 0, 5 >>) = Ok(Len(b), doc)
PrefixRejected == LET b == EncDoc(doc) IN \A n \in 0..(Len(b) - 1) : ~WellFormed(SubSeq(b, 1, n))
\* only the true length prefix is acceptable
LengthPinned == LET b == EncDoc(doc)
                IN \A d \in { x \in {-5, -4, -1, 1, 4, 5} : Len(b) + x >= 0 } :
                     ~WellFormed(LE32(Len(b) + d) \o SubSeq(b, 5, Len(b)) \o <<0, 0, 0, 0, 0>>)
\* re-encoding whatever was decoded reproduces the bytes
Canonical == LET b == EncDoc(doc) IN EncDoc(Decode(b).r) = b

Emit == PrintT("CASE " \o ToJson([doc |-> doc, bytes |-> EncDoc(doc)]))
=============================================================================
