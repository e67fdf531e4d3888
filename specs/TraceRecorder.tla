--------------------------- MODULE TraceRecorder ----------------------------
(* Recorded histories of real recorders are behaviours of Recorder.tla: TLC  *)
(* looks for the moments at which calls took effect between the writes.      *)
EXTENDS Recorder, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, st, pend, phase, owed, ticks, grace
vars == << c, i, st, pend, phase, owed, ticks, grace >>
Ev == Cases[c].ev
None == [op |-> ""]
Init == /\ c \in 1..Len(Cases) /\ i = 1 /\ pend = None /\ phase = "idle" /\ owed = "no" /\ ticks = 0 /\ grace = 1
        /\ st = IF Cases[c].k = "hist" THEN InitRec(Cases[c].kind, Cases[c].ivl, Cases[c].t0, Cases[c].t1) ELSE <<>>
Hist == Cases[c].k = "hist" /\ i <= Len(Ev)
Step == i' = i + 1 /\ UNCHANGED c

Call == /\ Hist /\ Ev[i].e = "call" /\ phase = "idle"
        /\ pend' = Ev[i] /\ phase' = "before" /\ ticks' = 0
        /\ UNCHANGED << st, owed, grace >> /\ Step
\* the call takes effect
Effect ==
  /\ Hist /\ phase = "before" /\ phase' = "after"
  /\ LET o == pend IN
     CASE o.op \in SimpleOps -> st' = Simple(st, o.op, o.v) /\ owed' = "no"
       [] o.op = "begin" -> st' = Begin(st, o.t0, o.t1) /\ owed' = "no"
       [] o.op = "end" -> st' = End(st, o.v, o.t0, o.t1) /\ owed' = EndWrites(st, o.t0, o.t1)
       [] o.op = "test" -> st' = [TestPoint(st, o.t0, o.t1) EXCEPT !.running = FALSE] /\ owed' = TestWrites(st)
       [] o.op = "reset" -> st' = Clear(st) /\ owed' = "no"
       [] o.op = "cancel" -> st' = [st EXCEPT !.canceled = TRUE] /\ owed' = "no"
       [] o.op \in {"await", "sleep", "slow", "fail"} -> st' = st /\ owed' = "no"
  /\ UNCHANGED << c, i, pend, ticks, grace >>
\* the call writes the point
Write == /\ Hist /\ Ev[i].e = "add" /\ phase = "after" /\ owed \in {"must", "may"}
         /\ PointOK(st, Ev[i].p)
         /\ st' = Written(st, Ev[i].fail, pend.t0, pend.t1)
         /\ owed' = "no" /\ UNCHANGED << pend, phase, ticks, grace >> /\ Step
\* the background writer writes the point
Tick == /\ Hist /\ Ev[i].e = "add" /\ st.running
        /\ Ev[i].t >= st.since + st.ivl - 2
        /\ (st.canceled => grace > 0) /\ grace' = IF st.canceled THEN grace - 1 ELSE grace
        /\ PointOK(TickPoint(st, Ev[i].t), Ev[i].p)
        /\ st' = Ticked(st, Ev[i].fail) /\ ticks' = ticks + 1
        /\ UNCHANGED << pend, phase, owed >> /\ Step
RetOK(e) == e.panic = "" /\
         CASE pend.op = "test" -> (e.err # "") = st.err
              [] pend.op = "await" -> (st.running /\ ~st.canceled) => (e.err = "" /\ ticks > 0)
              [] OTHER -> e.err = ""
TimerOK(e) == e.tm = (IF ~Cases[c].shim THEN <<>>
                      ELSE CASE pend.op = "begin" -> << "start" >> [] pend.op = "end" -> << "stop" >> [] pend.op = "reset" -> << "reset" >> [] OTHER -> <<>>)
Ret == /\ Hist /\ Ev[i].e = "ret" /\ phase = "after" /\ owed # "must"
       /\ RetOK(Ev[i]) /\ TimerOK(Ev[i])
       /\ st' = IF pend.op = "test" THEN Clear(st) ELSE st
       /\ phase' = "idle" /\ pend' = None /\ owed' = "no" /\ UNCHANGED << ticks, grace >> /\ Step

(***** concurrent callers: nothing is lost, nothing is counted twice **********)
SumBy(ps, f) == FoldLeft(LAMBDA a, p : a + p[f], 0, ps)
Growing(ps, f) == \A j \in 1..(Len(ps) - 1) : ps[j][f] <= ps[j + 1][f]
CallersOK(x) ==
  LET f == x.points
      tot(k) == IF Family(x.kind) = "interval" THEN SumBy(f, k) ELSE IF f = <<>> THEN 0 ELSE f[Len(f)][k]
  IN /\ x.panic = "" /\ x.err = "" /\ ~x.overlap
     /\ \A k \in {"n", "ops", "size", "errs", "dur"} : tot(k) = x.sums[k] /\ (Family(x.kind) # "interval" => Growing(f, k))
     /\ Family(x.kind) = "raw" => Len(f) \in {x.ends, x.ends + 1}
     /\ Family(x.kind) = "single" => Len(f) = 1
Callers == /\ Cases[c].k = "callers" /\ i = 1 /\ CallersOK(Cases[c]) /\ i' = Len(Cases[c].points) + 2
           /\ UNCHANGED << c, st, pend, phase, owed, ticks, grace >>
Next == Call \/ Effect \/ Write \/ Tick \/ Ret \/ Callers
Spec == Init /\ [][Next]_vars
Reached == (i = (IF Cases[c].k = "hist" THEN Len(Ev) + 1 ELSE Len(Cases[c].points) + 2)) => PrintT("REACHED " \o ToJson([case |-> c]))
=============================================================================
