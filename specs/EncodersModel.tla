--------------------------- MODULE EncodersModel ---------------------------
(* Elements are written into a buffer one after the other. Every way to put  *)
(* one value at every position of every small buffer is emitted.             *)
EXTENDS Encoders, Json
CONSTANTS MaxElems, MaxStart
Z8 == <<1, 2, 3, 4, 5, 6, 7, 136>>
Values == { Scalar(1, Z8), Scalar(2, <<>>), Scalar(2, <<97, 0, 98>>), MkV(3, <<>>, <<>>, <<>>), MkV(3, <<>>, <<>>, << Elem(<<120>>, Scalar(8, <<1>>)) >>),
            MkV(4, <<>>, <<>>, << Elem(<<48>>, Scalar(8, <<0>>)) >>), MkV(5, <<>>, <<0>>, <<>>), MkV(5, <<9, 8>>, <<128>>, <<>>), MkV(5, <<>>, <<2>>, <<>>), MkV(5, <<9, 8, 7>>, <<2>>, <<>>),
            Scalar(7, Z8 \o <<9, 10, 11, 12>>), Scalar(8, <<0>>), Scalar(8, <<1>>), Scalar(9, Z8), MkV(11, <<>>, <<>>, <<>>), MkV(11, <<94, 97>>, <<105>>, <<>>),
            MkV(12, <<110>>, Z8 \o <<9, 10, 11, 12>>, <<>>), Scalar(13, <<99>>), Scalar(14, <<115, 116>>), MkV(15, <<99>>, <<>>, <<>>), MkV(15, <<>>, <<>>, << Elem(<<120>>, Scalar(8, <<1>>)) >>),
            Scalar(16, <<1, 2, 3, 132>>), Scalar(17, Z8), Scalar(18, Z8), Scalar(19, Z8 \o Z8) }
Keys == { <<>>, <<97>>, <<195, 188, 98>>, [i \in 1..20 |-> 96 + i] }
Cases == { [f |-> "elem", k |-> k, v |-> v] : k \in Keys, v \in Values } \cup { [f |-> "value", k |-> <<>>, v |-> v] : v \in Values }
    \cup { [f |-> "cstring", k |-> k, v |-> Scalar(8, <<1>>)] : k \in Keys } \cup { [f |-> "byte", k |-> <<>>, v |-> v] : v \in Values }
\* st: a buffer, the position that is written next, and what was written
VARIABLES buf, pos, done, last
vars == << buf, pos, done, last >>
Few == { c \in Cases : c.f = "elem" /\ c.k = <<97>> /\ c.v.t \in {2, 5, 8, 16} }
Init == /\ buf \in { [i \in 1..n |-> 255] : n \in 0..30 } /\ pos \in 0..2 /\ done = <<>> /\ last = "ok"
Next == /\ Len(done) < MaxElems /\ last = "ok"
        /\ \E c \in Few : \E r \in Put(buf, pos, Wanted(c)) :
             /\ buf' = r.out /\ pos' = pos + r.n /\ last' = IF r.ok THEN "ok" ELSE "err"
             /\ done' = IF r.ok THEN Append(done, Elem(c.k, c.v)) ELSE done
Spec == Init /\ [][Next]_vars
\* what was written in sequence is the sequence of elements, and the rest is untouched
Sequence == LET w == EncElems(done) IN
            /\ last = "ok" /\ pos <= Len(buf) =>
                 /\ \A i \in 1..Len(w) : buf[pos - Len(w) + i] = w[i]
                 /\ \A i \in 1..Len(buf) : i > pos \/ i <= pos - Len(w) => buf[i] = 255
            /\ last = "ok" \/ pos <= Len(buf) \/ w = <<>>
EmitCases == \A c \in Cases : LET n == Len(Wanted(c)) IN
   \A s \in 0..MaxStart : \A m \in 0..(s + n + 2) :
      PrintT("CASE " \o ToJson([f |-> c.f, k |-> c.k, v |-> c.v, start |-> s, size |-> m]))
ASSUME EmitCases
=============================================================================
