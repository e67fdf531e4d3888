------------------------------ MODULE WireModel ------------------------------
(* Every message of every kind over small parts, and every small damage to it. *)
EXTENDS Wire, Json, TLC
CONSTANTS MaxMut, Rich
VARIABLES m, b, k
vars == << m, b, k >>
E0 == << 5, 0, 0, 0, 0 >>
D1 == EncDoc(<< Elem(<< 97 >>, Scalar(16, << 1, 0, 0, 0 >>)) >>)
D2 == EncDoc(<< Elem(<< 112 >>, Scalar(2, << 120 >>)), Elem(DollarDB, Scalar(2, << 100 >>)) >>)
D3 == EncDoc(<< Elem(<< 98 >>, MkV(3, <<>>, <<>>, << Elem(DollarDB, Scalar(8, << 1 >>)) >>)), Elem(DollarDB, Scalar(16, << 1, 0, 0, 0 >>)) >>)
Docs == IF Rich THEN {E0, D1, D2, D3} ELSE {E0, D2}
Upto(n) == UNION {[1..i -> Docs] : i \in 0..n}
F4 == {<< i, 0, 0, 0 >> : i \in 0..3} \cup {<< 255, 255, 255, 255 >>, << 0, 0, 1, 0 >>}
NSs == {<<>>, << 100, 46, 99 >>, << 100 >>, << 46 >>, << 100, 46 >>}
Cmds == {<< 100, 46, 36, 99, 109, 100 >>, << 46, 36 >>, << 46, 46, 36 >>, << 36, 99 >>}
N4 == {<< 0, 0, 0, 0 >>, << 1, 0, 0, 0 >>, << 255, 255, 255, 255 >>}
C8 == {Z8, << 1, 2, 3, 4, 5, 6, 7, 8 >>, << 255, 255, 255, 255, 255, 255, 255, 255 >>}
S == {[k |-> 0, id |-> <<>>, docs |-> << d >>] : d \in Docs} \cup {[k |-> 1, id |-> i, docs |-> d] : i \in {<<>>, << 105, 100 >>}, d \in Upto(1) \cup {<< D1, D2 >>}}
Q(op) == [NoMsg EXCEPT !.op = op, !.rid = << 7, 1, 0, 0 >>, !.rto = << 9, 0, 0, 128 >>]
Messages ==
  {[Q(REPLY) EXCEPT !.f = f, !.cur = c, !.a = a, !.n = << 2, 0, 0, 0 >>, !.docs = d] : f \in F4, c \in C8, a \in N4, d \in Upto(2)} \cup
  {[Q(UPDATE) EXCEPT !.f = f, !.ns = s, !.docs = d] : f \in F4, s \in NSs \cup Cmds, d \in [1..2 -> Docs]} \cup
  {[Q(DELETE) EXCEPT !.f = f, !.ns = s, !.docs = d] : f \in F4, s \in NSs, d \in [1..1 -> Docs]} \cup
  {[Q(INSERT) EXCEPT !.f = f, !.ns = s, !.docs = d] : f \in F4, s \in NSs, d \in Upto(2)} \cup
  {[Q(QUERY) EXCEPT !.f = f, !.ns = s, !.a = a, !.n = n, !.docs = d] : f \in F4, s \in NSs \cup Cmds, a \in N4, n \in N4, d \in Upto(2) \ {<<>>}} \cup
  {[Q(GETMORE) EXCEPT !.ns = s, !.n = n, !.cur = c] : s \in NSs, n \in N4, c \in C8} \cup
  {[Q(KILL) EXCEPT !.curs = c] : c \in UNION {[1..i -> C8] : i \in 0..2}} \cup
  {[Q(COMMAND) EXCEPT !.ns = s, !.cmd = c, !.docs = d] : s \in {<<>>, << 100 >>}, c \in {<<>>, << 112, 105 >>}, d \in Upto(3) \ Upto(1)} \cup
  {[Q(CREPLY) EXCEPT !.docs = d] : d \in Upto(3) \ Upto(1)} \cup
  {[Q(OPMSG) EXCEPT !.f = f, !.secs = s, !.sum = IF Bit(f, 0) THEN c ELSE Zero4] : f \in F4, c \in {Zero4, << 1, 2, 3, 4 >>}, s \in UNION {[1..i -> S] : i \in 0..2}}
\* only a few messages are damaged
Few == {[Q(REPLY) EXCEPT !.docs = << D1 >>], [Q(UPDATE) EXCEPT !.ns = << 100 >>, !.docs = << E0, D1 >>], [Q(DELETE) EXCEPT !.ns = << 100 >>, !.docs = << D1 >>],
        [Q(INSERT) EXCEPT !.ns = << 100 >>, !.docs = << D1 >>], [Q(QUERY) EXCEPT !.ns = << 100 >>, !.docs = << D1, E0 >>],
        [Q(QUERY) EXCEPT !.ns = << 100, 46, 36 >>, !.docs = << D1 >>], [Q(GETMORE) EXCEPT !.ns = << 100 >>, !.cur = << 1, 2, 3, 4, 5, 6, 7, 8 >>],
        [Q(KILL) EXCEPT !.curs = << Z8 >>], [Q(COMMAND) EXCEPT !.ns = << 100 >>, !.cmd = << 112 >>, !.docs = << D1, E0, D1 >>], [Q(CREPLY) EXCEPT !.docs = << D1, E0, E0 >>],
        [Q(OPMSG) EXCEPT !.secs = << [k |-> 0, id |-> <<>>, docs |-> << D1 >>], [k |-> 1, id |-> << 105 >>, docs |-> << E0, D1 >>] >>],
        [Q(OPMSG) EXCEPT !.f = << 1, 0, 0, 0 >>, !.sum = << 1, 2, 3, 4 >>, !.secs = << [k |-> 1, id |-> << 105 >>, docs |-> << E0 >>], [k |-> 0, id |-> <<>>, docs |-> << D1 >>] >>]}
Damaged(v) == {0, 1, 4, 127, 128, 255, (v + 1) % 256, (v + 255) % 256} \ {v}
Words == {<< 255, 255, 255, 255 >>, << 255, 255, 255, 127 >>, << 0, 0, 0, 128 >>, << 0, 0, 0, 32 >>, << 0, 0, 0, 224 >>}
Init == k = 0 /\ m \in Messages \cup Few /\ b = Encode(m)
\* damage leaves the size in the header right, unless it is what is damaged
Fix(x) == LE32(Len(x)) \o SubSeq(x, 5, Len(x))
Next == /\ k < MaxMut /\ m \in Few /\ k' = k + 1 /\ UNCHANGED m
        /\ \/ \E i \in 5..Len(b) : \E v \in Damaged(b[i]) : b' = [b EXCEPT ![i] = v]
           \/ \E i \in 17..(Len(b) - 3) : \E v \in Words : b' = SubSeq(b, 1, i - 1) \o v \o SubSeq(b, i + 4, Len(b))
           \/ \E i \in 16..(Len(b) - 1) : b' = Fix(SubSeq(b, 1, i))
           \/ \E v \in {0, 1, 128} : b' = Fix(Append(b, v))
           \/ \E i \in 17..Len(b) : b' = Fix(SubSeq(b, 1, i - 1) \o SubSeq(b, i + 1, Len(b)))
Spec == Init /\ [][Next]_vars
\* a query of a command namespace arrives as a command
Upconverted == m.op = QUERY /\ IsCommandNS(m.ns)
RoundTrip == k = 0 => LET x == Parse(b) IN
   IF Upconverted THEN x.v = (IF Decode(m.docs[1]).r = <<>> THEN "err" ELSE "ok") /\ (x.v = "ok" => x.m.op = COMMAND /\ x.m.rid = m.rid /\ x.m.docs[1] = m.docs[1])
   ELSE x.v = "ok" /\ x.m = m
Framed == LET s == b \o b \o Encode([Q(KILL) EXCEPT !.curs = <<>>]) IN
   k = 0 => ReadAt(s, 1).p = Len(b) + 1 /\ ReadAt(s, Len(b) + 1).p = 2 * Len(b) + 1
Emit == PrintT("CASE " \o ToJson(IF k = 0 THEN [op |-> "build", b |-> b, m |-> m] ELSE [op |-> "parse", b |-> b, m |-> NoMsg]))
=============================================================================
