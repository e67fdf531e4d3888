---------------------------- MODULE ServiceScripts ---------------------------
(* Every short script for a service: registrations (valid or not), bursts of *)
(* messages on two connections, and the end.                                 *)
EXTENDS Service, Json, TLC
CONSTANTS MaxRegs, MaxBursts
VARIABLES regs, bursts
vars == << regs, bursts >>
Ping == << 112 >>
DB == << 100 >>
El == Elem(Ping, Scalar(16, << 1, 0, 0, 0 >>))
D0 == << 5, 0, 0, 0, 0 >>
D1 == EncDoc(<< El >>)
D2 == EncDoc(<< El, Elem(DollarDB, Scalar(2, DB)) >>)
Q(op, i) == [NoMsg EXCEPT !.op = op, !.rid = << i, 0, 0, 0 >>, !.rto = << 5, 0, 0, 128 >>]
Msg(d, i) == [Q(OPMSG, i) EXCEPT !.secs = << [k |-> 0, id |-> <<>>, docs |-> << d >>] >>]
R(t, ctx, cmd, h, do) == [n |-> "reg", t |-> t, ctx |-> ctx, cmd |-> cmd, h |-> h, do |-> do]
RegSet == {R(OPMSG, <<>>, Ping, 1, "reply"), R(OPMSG, DB, Ping, 2, "reply"), R(OPMSG, <<>>, Ping, 3, "panic"), R(OPMSG, DB, Ping, 4, "wait"),
           R(OPMSG, DB, <<>>, 5, "reply"), R(COMMAND, <<>>, Ping, 6, "reply"), R(INSERT, DB \o << 46, 99 >>, <<>>, 7, "reply"), R(INSERT, DB, Ping, 8, "reply"),
           R(KILL, <<>>, <<>>, 9, "reply"), R(KILL, DB, <<>>, 10, "reply"), R(OPMSG, DB, Ping, 0, "reply"), R(REPLY, DB, <<>>, 11, "reply"), R(0, <<>>, <<>>, 12, "reply")}
Bs == << Encode(Msg(D1, 1)), Encode(Msg(D2, 1)), Encode(Msg(D1, 1)) \o Encode(Msg(D2, 2)) \o Encode(Q(KILL, 3)),
         Encode(Msg(D0, 1)), Encode(Q(KILL, 1)) \o Encode(Q(KILL, 2)), Encode([Q(REPLY, 1) EXCEPT !.docs = << D1 >>]),
         Encode(Msg(D2, 1)) \o << 15, 0, 0, 0 >> \o Encode(Msg(D2, 2)), Encode(Msg(D1, 1)) \o SubSeq(Encode(Msg(D1, 2)), 1, 30),
         Encode([Q(QUERY, 1) EXCEPT !.ns = DB \o << 46, 36, 99 >>, !.docs = << D1 >>]), Encode([Q(INSERT, 1) EXCEPT !.ns = DB \o << 46, 99 >>, !.docs = << D0 >>]),
         Encode([Msg(D1, 1) EXCEPT !.secs = <<>>]), Encode(Msg(D2, 1)) \o LE32(18) \o SubSeq(Encode(Q(KILL, 1)), 5, 16) \o << 0, 0 >> >>
Init == regs \in UNION {[1..n -> RegSet] : n \in 0..MaxRegs} /\ bursts = <<>>
Next == /\ Len(bursts) < MaxBursts /\ \E i \in 1..Len(Bs) : \E c \in {1, 2} : bursts' = Append(bursts, << i, c >>)
        /\ UNCHANGED regs
Spec == Init /\ [][Next]_vars
RECURSIVE RegOf(_)
RegOf(rs) == IF rs = <<>> THEN {} ELSE LET s == RegOf(SubSeq(rs, 1, Len(rs) - 1))
                                           r == rs[Len(rs)]
                                       IN  IF Registers(s, r) THEN s \cup {r} ELSE s
Case == LET reg == RegOf(regs) IN
  [steps |-> regs \o << [n |-> "start"] >> \o
   [i \in 1..Len(bursts) |-> LET b == Bs[bursts[i][1]]
                                 w == Serve(reg, b, 1, <<>>)
                             IN [n |-> "send", c |-> bursts[i][2], b |-> b, want |-> Len(w.calls), end |-> w.end]] \o
   (IF Len(bursts) = 1 THEN << [n |-> "clash"] >> ELSE <<>>) \o << [n |-> "cancel"] >>]
Sound == \A x, y \in RegOf(regs) : ScopeIn(x) = ScopeIn(y) => x = y
Emit == Len(bursts) = MaxBursts => PrintT("CASE " \o ToJson(Case))
=============================================================================
