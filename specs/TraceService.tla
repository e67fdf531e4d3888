----------------------------- MODULE TraceService ----------------------------
EXTENDS Service, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, reg, calls, loose, rude
vars == << c, l, reg, calls, loose, rude >>
Report(ok, what, exp, got) ==
  IF ok THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([case |-> c, at |-> l + 1, what |-> what, exp |-> exp, got |-> got]))
Init == c \in 1..Len(Cases) /\ l = 0 /\ reg = {} /\ calls = <<>> /\ loose = FALSE /\ rude = {}
Keep == UNCHANGED << reg, calls, loose, rude >>
Reg(x) == LET ok == Registers(reg, x) IN
          /\ Report(x.o.ok = ok, "registration", ok, x.o)
          /\ reg' = (IF ok THEN reg \cup {[t |-> x.t, ctx |-> x.ctx, cmd |-> x.cmd, h |-> x.h, do |-> x.do]} ELSE reg)
          /\ UNCHANGED << calls, loose, rude >>
Start(x) == Report(x.o.ok, "starting the service", TRUE, x.o) /\ Keep
Clash(x) == Report(x.o.err # "", "a service on an address that is taken", "error", x.o) /\ Keep
Send(x) ==
  LET w == Serve(reg, x.b, 1, <<>>)
      panics == Len(Doing(w.calls, "panic")) > 0
      shuts == w.end \in {"shut", "cut"}
  IN  /\ w.end # "open?" =>
           /\ Report(shuts => x.o.errs >= 1, "unserved message is not reported", 1, x.o.errs)
           /\ Report(panics => x.o.errs >= Len(Doing(w.calls, "panic")), "panic is not reported", 1, x.o.errs)
           /\ Report(shuts \/ panics \/ x.o.errs = 0, "errors", 0, x.o.errs)
           /\ Report(shuts => x.o.shut, "connection stays open", "closed", x.o)
           /\ Report((~shuts /\ ~panics) => ~x.o.shut, "connection is closed", "open", x.o)
      /\ Report(x.o.others = 0, "other connections are closed", 0, x.o.others)
      /\ calls' = calls \o [i \in 1..Len(w.calls) |-> w.calls[i] @@ [c |-> x.cid, safe |-> ~shuts /\ ~panics]]
      /\ loose' = (loose \/ w.end = "open?")
      /\ rude' = IF w.end = "open" THEN rude ELSE rude \cup {x.cid}
      /\ UNCHANGED reg
\* a client that has sent whole messages leaves: that is no error
Bye(x) == /\ (x.cid # 0 /\ x.cid \notin rude) =>
               /\ Report(x.o.errs = 0, "a client that leaves is an error", 0, x.o.errs)
               /\ Report(x.o.shut, "the connection of a client that left stays open", "closed", x.o)
               /\ Report(x.o.others = 0, "other connections are closed when a client leaves", 0, x.o.others)
          /\ calls' = [i \in 1..Len(calls) |-> IF calls[i].c = x.cid THEN [calls[i] EXCEPT !.safe = FALSE] ELSE calls[i]]
          /\ UNCHANGED << reg, loose, rude >>
\* what a call must have been given: [h, c, m]
Essence(x) == [h |-> x.h, c |-> x.c, rid |-> x.m.rid, op |-> x.m.op, scope |-> ScopeOf(x.m)]
Seen(o) == [h |-> o.h, c |-> o.c, rid |-> o.rid, op |-> o.op, scope |-> o.scope]
Reply(x) == << x.c, x.h, x.m.rid >>
Cancel(x) ==
  LET need == [i \in 1..Len(calls) |-> Essence(calls[i])]
      got  == [i \in 1..Len(x.o.calls) |-> Seen(x.o.calls[i])]
      answers == Doing(calls, "reply")
      must == SelectSeq(answers, LAMBDA y : y.safe)
      may  == [i \in 1..Len(answers) |-> Reply(answers[i])]
      sure == [i \in 1..Len(must) |-> Reply(must[i])]
      have == x.o.replies
      Times(s, e) == Cardinality({i \in 1..Len(s) : s[i] = e})
      waits == Len(Doing(calls, "wait"))
  IN  /\ Report(x.o.done, "running does not end when the context is canceled", TRUE, x.o.done)
      /\ Report(x.o.open = 0, "connections stay open after the service ends", 0, x.o.open)
      /\ Report(x.o.refused, "connections are accepted after the service ends", TRUE, x.o.refused)
      /\ ~loose =>
           /\ Report(SameBag(need, got), "calls of handlers", need, got)
           /\ Report(x.o.released = waits, "handlers are not told that the service ends", waits, x.o.released)
           /\ Report(\A i \in 1..Len(sure) : Times(have, sure[i]) >= Times(sure, sure[i]), "replies", sure, have)
           /\ Report(\A i \in 1..Len(have) : Times(have, have[i]) <= Times(may, have[i]), "replies that were not sent", may, have)
      /\ \A i \in 1..Len(x.o.calls) :
           LET o == x.o.calls[i]
               ms == {j \in 1..Len(calls) : Essence(calls[j]) = Seen(o)}
           IN  (ms # {} /\ ~loose) => Report(\E j \in ms : calls[j].m.up \/ (Parse(o.ser).v = "ok" /\ SameMsg(Parse(o.ser).m, calls[j].m)), "message given to a handler", ms, o)
      /\ Keep
Next == /\ l < Len(Cases[c])
        /\ LET x == Cases[c][l + 1] IN
             CASE x.n = "reg" -> Reg(x)
               [] x.n = "start" -> Start(x)
               [] x.n = "clash" -> Clash(x)
               [] x.n = "send" -> Send(x)
               [] x.n = "bye" -> Bye(x)
               [] x.n = "cancel" -> Cancel(x)
        /\ l' = l + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
