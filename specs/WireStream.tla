------------------------------ MODULE WireStream ------------------------------
(***************************************************************************)
(* A connection: messages written one after another to a stream that is cut *)
(* anywhere, delivered in fragments of any size to a reader that reads one   *)
(* message at a time.  The reader's position is the state.                   *)
(***************************************************************************)
EXTENDS Wire, Json, TLC
CONSTANTS MaxParts, Sizes
VARIABLES parts, cut, chunks, at, got
vars == << parts, cut, chunks, at, got >>
E0 == << 5, 0, 0, 0, 0 >>
D1 == EncDoc(<< Elem(<< 112 >>, Scalar(16, << 1, 0, 0, 0 >>)) >>)
Q(op) == [NoMsg EXCEPT !.op = op, !.rid = << 19, 0, 0, 0 >>]
Kinds == << Encode([Q(KILL) EXCEPT !.curs = << Z8 >>]),
            Encode([Q(OPMSG) EXCEPT !.secs = << [k |-> 0, id |-> <<>>, docs |-> << D1 >>] >>]),
            Encode(Q(KILL)) >>
\* not messages: sizes that cannot be, an unknown operation, a body that is too short
Junk == << LE32(15) \o Zero4 \o Zero4, << 255, 255, 255, 255 >>, << 71, 69, 84, 32 >>, << 0, 0, 128, 12 >> \o Zero4,
           LE32(16) \o Zero4 \o Zero4 \o << 42, 0, 0, 0 >>, LE32(18) \o Zero4 \o Zero4 \o LE32(QUERY) \o << 1, 1 >> >>
All == Kinds \o Junk
Stream == LET b == Cat([i \in 1..Len(parts) |-> All[parts[i]]]) IN SubSeq(b, 1, Len(b) - cut)
Init == /\ parts \in UNION {[1..n -> 1..Len(All)] : n \in 0..MaxParts}
        /\ cut \in 0..(IF parts = <<>> THEN 0 ELSE Len(All[parts[Len(parts)]]))
        /\ chunks \in [1..2 -> Sizes]
        /\ at = 1 /\ got = <<>>
\* reading goes on where the message before it ended
Next == LET x == ReadAt(Stream, at) IN
        /\ x.r \in {"ok", "err", "any"}
        /\ got' = Append(got, x.r) /\ at' = x.p /\ UNCHANGED << parts, cut, chunks >>
Spec == Init /\ [][Next]_vars
\* one answer for every whole part before the cut, until the stream is of no use
Sized(i) == i <= 3 \/ i >= 8
Good == LET whole == IF cut = 0 THEN Len(parts) ELSE Len(parts) - 1
            bad == {i \in 1..whole : ~Sized(parts[i])}
            stop == IF bad = {} THEN whole ELSE (CHOOSE i \in bad : \A j \in bad : i <= j) - 1
        IN  SubSeq(parts, 1, stop)
Framing == /\ Len(got) <= Len(Good)
           /\ \A i \in 1..Len(got) : got[i] = (IF Good[i] <= 3 THEN "ok" ELSE "err")
           /\ ENABLED Next \/ Len(got) = Len(Good)
Emit == got = <<>> =>
  /\ PrintT("CASE " \o ToJson([op |-> "stream", b |-> Stream, m |-> NoMsg, sizes |-> chunks, eof |-> chunks[1] = 1, zero |-> FALSE, fail |-> -1]))
  /\ (parts \in {<< 1 >>, << 2 >>, << 3 >>} /\ chunks[2] > 1) =>
       PrintT("CASE " \o ToJson([op |-> "send", b |-> <<>>, sizes |-> chunks, eof |-> FALSE, zero |-> FALSE, fail |-> Len(Stream),
                                 m |-> IF parts = << 1 >> THEN [Q(KILL) EXCEPT !.curs = << Z8 >>]
                                       ELSE IF parts = << 2 >> THEN [Q(OPMSG) EXCEPT !.secs = << [k |-> 0, id |-> <<>>, docs |-> << D1 >>] >>] ELSE Q(KILL)]))
=============================================================================
