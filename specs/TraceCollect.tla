---------------------------- MODULE TraceCollect ----------------------------
(* Recorded collections are behaviours of Collect.tla. The files seen at the *)
(* end tell when the collection moved what it held to the next file.         *)
EXTENDS Collect, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, st
vars == << c, i, st >>
Ev == Cases[c].ev
Final == Cases[c].files
Init == c \in 1..Len(Cases) /\ i = 1 /\ st = C0(Cases[c].mode)
More == i <= Len(Ev)
Step == i' = i + 1 /\ UNCHANGED c
GiveIt == More /\ Ev[i].e = "give" /\ st' = Give(st, [id |-> Ev[i].id, kind |-> Ev[i].kind]) /\ Step
EndIt == More /\ Ev[i].e = "end" /\ st' = End(st, Ev[i].kind) /\ Step
CancelIt == More /\ Ev[i].e = "cancel" /\ st' = Cancel(st) /\ Step
TakeIt == /\ More /\ CanTake(st) /\ \E f \in Fates(Head(st.todo).kind) : st' = Take(st, f)
          /\ UNCHANGED << c, i >>
Next1 == Len(st.files) + 1
FlushIt == /\ More /\ CanFlush(st) /\ Next1 <= Len(Final) /\ Final[Next1] = st.held /\ st' = Flush(st)
           /\ UNCHANGED << c, i >>
\* the caller sees everything it gave in the files
SettleIt == /\ More /\ Ev[i].e = "settle" /\ st.out = "run"
            /\ Ev[i].done => (st.todo = <<>> /\ st.held = <<>> /\ Len(st.files) = Ev[i].n)
            /\ st' = st /\ Step
Clean(x) == x.returned /\ x.panic = "" /\ x.bad = "" /\ x.leak = 0 /\ x.fds = 0 /\ ~x.late
            /\ \A k \in DOMAIN x.calls : x.calls[k] = Len(SelectSeq(x.ev, LAMBDA e : e.e = "give")) \/ Ev[Len(Ev)].err
Ret == /\ More /\ Ev[i].e = "ret" /\ st.files = Final /\ Clean(Cases[c])
       /\ IF Ev[i].err THEN EndsBadly(st) ELSE EndsWell(st) /\ (st.mode = "samples" => st.todo = <<>>)
       /\ st' = [st EXCEPT !.out = "done"] /\ Step
Next == GiveIt \/ EndIt \/ CancelIt \/ TakeIt \/ FlushIt \/ SettleIt \/ Ret
Spec == Init /\ [][Next]_vars
Reached == (i = Len(Ev) + 1) => PrintT("REACHED " \o ToJson([case |-> c]))
=============================================================================
