----------------------------- MODULE ServiceModel ----------------------------
(***************************************************************************)
(* The service at work: connections that arrive, are read one message at a   *)
(* time and start handlers that run on their own, until the service is       *)
(* canceled.  Handlers may panic, reply, or wait for the end.                *)
(***************************************************************************)
EXTENDS Service, TLC
CONSTANTS Conns, MaxBurst
VARIABLES reg, burst, conn, pos, tasks, calls, errs, replies, on
vars == << reg, burst, conn, pos, tasks, calls, errs, replies, on >>
E0 == << 5, 0, 0, 0, 0 >>
Ping == << 112 >>
D1 == EncDoc(<< Elem(Ping, Scalar(16, << 1, 0, 0, 0 >>)) >>)
D2 == EncDoc(<< Elem(Ping, Scalar(16, << 1, 0, 0, 0 >>)), Elem(DollarDB, Scalar(2, << 100 >>)) >>)
Q(op) == [NoMsg EXCEPT !.op = op, !.rid = << 19, 0, 0, 0 >>]
Body0(d) == << [k |-> 0, id |-> <<>>, docs |-> << d >>] >>
Ms == << [Q(OPMSG) EXCEPT !.secs = Body0(D1)], [Q(OPMSG) EXCEPT !.secs = Body0(D2)], Q(KILL), [Q(REPLY) EXCEPT !.docs = << E0 >>] >>
Regs == {{}, {[t |-> OPMSG, ctx |-> <<>>, cmd |-> Ping, h |-> 1, do |-> "reply"]},
         {[t |-> OPMSG, ctx |-> <<>>, cmd |-> Ping, h |-> 1, do |-> "panic"], [t |-> OPMSG, ctx |-> << 100 >>, cmd |-> Ping, h |-> 2, do |-> "reply"]},
         {[t |-> OPMSG, ctx |-> <<>>, cmd |-> Ping, h |-> 1, do |-> "wait"], [t |-> KILL, ctx |-> <<>>, cmd |-> <<>>, h |-> 2, do |-> "reply"]}}
Sent(c) == Cat([i \in 1..Len(burst[c]) |-> Encode(Ms[burst[c][i]])])
Init == /\ reg \in Regs
        /\ burst \in [Conns -> UNION {[1..n -> 1..Len(Ms)] : n \in 0..MaxBurst}]
        /\ conn = [c \in Conns |-> "new"] /\ pos = [c \in Conns |-> 1]
        /\ tasks = {} /\ calls = [c \in Conns |-> <<>>] /\ errs = [c \in Conns |-> 0] /\ replies = [c \in Conns |-> 0] /\ on = TRUE
Accept(c) == on /\ conn[c] = "new" /\ conn' = [conn EXCEPT ![c] = "open"] /\ UNCHANGED << reg, burst, pos, tasks, calls, errs, replies, on >>
Read(c) == /\ conn[c] = "open" /\ pos[c] <= Len(Sent(c))
           /\ LET x == ReadAt(Sent(c), pos[c])
                  hs == IF x.m.op \in {REPLY, CREPLY} THEN {} ELSE For(reg, ScopeOf(x.m))
              IN  IF x.r # "ok" \/ hs = {}
                  THEN /\ conn' = [conn EXCEPT ![c] = "shut"] /\ errs' = [errs EXCEPT ![c] = @ + 1] /\ UNCHANGED << tasks, calls, pos >>
                  ELSE /\ tasks' = tasks \cup {[c |-> c, n |-> Len(calls[c]) + 1, do |-> (CHOOSE h \in hs : TRUE).do]}
                       /\ calls' = [calls EXCEPT ![c] = Append(@, (CHOOSE h \in hs : TRUE).h)]
                       /\ pos' = [pos EXCEPT ![c] = x.p] /\ UNCHANGED << conn, errs >>
           /\ UNCHANGED << reg, burst, replies, on >>
Handle(t) == /\ t \in tasks /\ (t.do = "wait" => ~on) /\ tasks' = tasks \ {t}
             /\ errs' = [errs EXCEPT ![t.c] = IF t.do = "panic" THEN @ + 1 ELSE @]
             /\ replies' = [replies EXCEPT ![t.c] = IF t.do = "reply" /\ conn[t.c] = "open" THEN @ + 1 ELSE @]
             /\ UNCHANGED << reg, burst, conn, pos, calls, on >>
Cancel == on /\ on' = FALSE /\ UNCHANGED << reg, burst, conn, pos, tasks, calls, errs, replies >>
Stop(c) == ~on /\ conn[c] \in {"new", "open"} /\ conn' = [conn EXCEPT ![c] = "shut"] /\ UNCHANGED << reg, burst, pos, tasks, calls, errs, replies, on >>
Next == (\E c \in Conns : Accept(c) \/ Read(c) \/ Stop(c)) \/ (\E t \in tasks : Handle(t)) \/ Cancel
Spec == Init /\ [][Next]_vars /\ WF_vars(Cancel) /\ \A c \in Conns : WF_vars(Accept(c)) /\ WF_vars(Read(c)) /\ WF_vars(Stop(c))
             /\ WF_vars(\E t \in tasks : Handle(t))
Whole(c) == Serve(reg, Sent(c), 1, <<>>)
\* every connection is served as if it were alone: its calls are a prefix of
\* what its bytes call for, and all of it once it is quiet while the service is on
Served == \A c \in Conns :
  LET w == Whole(c).calls IN
  /\ Len(calls[c]) <= Len(w) /\ \A i \in 1..Len(calls[c]) : calls[c][i] = w[i].h
  /\ (on /\ conn[c] # "new" /\ ~ENABLED Read(c)) =>
       /\ Len(calls[c]) = Len(w)
       /\ (conn[c] = "open") = (Whole(c).end = "open")
       /\ {t \in tasks : t.c = c} = {} => errs[c] = Len(Doing(w, "panic")) + (IF conn[c] = "open" THEN 0 ELSE 1)
Replied == \A c \in Conns : replies[c] <= Len(Doing(Whole(c).calls, "reply"))
Ends == <>(tasks = {} /\ \A c \in Conns : conn[c] = "shut")
=============================================================================
