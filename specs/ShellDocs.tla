------------------------------ MODULE ShellDocs ------------------------------
(* Every small document of an outcome; every script of commands.             *)
EXTENDS Shell, Json, TLC
CONSTANTS MaxElems
VARIABLES es
K == << 107 >>
Palette == {Elem(OKKey, Scalar(16, Zero4)), Elem(OKKey, Scalar(16, << 1, 0, 0, 0 >>)), Elem(OKKey, Scalar(16, << 255, 255, 255, 255 >>)), Elem(OKKey, Scalar(18, << 0, 0, 0, 0, 1, 0, 0, 0 >>)),
            Elem(OKKey, Scalar(1, << 0, 0, 0, 0, 0, 0, 240, 63 >>)), Elem(OKKey, Scalar(8, << 1 >>)), Elem(OKKey, Scalar(10, <<>>)),
            Elem(ErrKey, Scalar(2, <<>>)), Elem(ErrKey, Scalar(2, << 120 >>)), Elem(ErrKey, Scalar(10, <<>>)), Elem(ErrKey, Scalar(14, << 120 >>)),
            Elem(K, Scalar(16, Zero4)), Elem(K, MkV(3, <<>>, <<>>, << Elem(OKKey, Scalar(2, <<>>)) >>)), Elem(<< 79, 75 >>, Scalar(2, <<>>))}
Init == es = <<>>
Next == Len(es) < MaxElems /\ \E e \in Palette : es' = Append(es, e)
Spec == Init /\ [][Next]_es
doc == EncDoc(es)
\* what is sent as a request or a response arrives as it was
Arrives == \A t \in {OPMSG, COMMAND, QUERY} :
  /\ LET p == Parse(Encode(Request(t, doc))) IN IF t # OPMSG /\ es = <<>> THEN p.v = "err" ELSE p.v = "ok" /\ RequestDoc(p.m) = << doc >>
  /\ LET p == Parse(Encode(Response(t, doc))) IN p.v = "ok" /\ ResponseDoc(p.m) = << doc >>
Told == \A ok \in BOOLEAN : \A m \in {<<>>, << 120 >>} :
  LET o == ReadOutcome(OutcomeDoc(ok, m)) IN o.valid /\ (o.ok # Z8) = ok /\ o.msg = m
Emit == /\ PrintT("CASE " \o ToJson([k |-> "outcome", doc |-> doc, b |-> <<>>, t |-> 0, req |-> FALSE]))
        /\ \A t \in {OPMSG, COMMAND} : \A r \in BOOLEAN :
             PrintT("CASE " \o ToJson([k |-> "conv", doc |-> doc, b |-> <<>>, t |-> t, req |-> r]))
=============================================================================
