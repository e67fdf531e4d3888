------------------------------ MODULE TraceConc -----------------------------
(***************************************************************************)
(* Recorded concurrent histories of real collectors are behaviours of       *)
(* Buffered.tla: TLC looks for the moves nobody saw (locks, the pipe, the   *)
(* worker) that explain the calls, answers and uses of the inner collector. *)
(***************************************************************************)
EXTENDS Buffered, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, creq
tvars == << vars, c, i, creq >>
Ev == Cases[c].ev
Init == /\ c \in 1..Len(Cases) /\ i = 1 /\ creq = FALSE
        /\ InitWith(Cases[c].kind, Cases[c].size)
Match(t, e) == /\ res[t].ok = e.ok
               /\ (e.ok /\ op[t].k = "resolve") => res[t].ids = e.ids /\ res[t].m = e.m
               /\ (op[t].k = "info") => res[t].n = e.n
Seen(e) ==
  CASE e.e = "inv" -> Invoke(e.t, [k |-> e.k, id |-> e.id]) /\ UNCHANGED creq
    [] e.e = "res" -> Match(e.t, e) /\ Return(e.t) /\ UNCHANGED creq
    [] e.e = "cancel" -> creq' = TRUE /\ UNCHANGED vars
    [] e.e = "ib" -> /\ \/ kind # "S" /\ IsAdd(e) /\ cur.id = e.id /\ ProcBegin
                        \/ \E t \in Threads : op[t].k = e.k /\ op[t].id = e.id /\ Begin(t)
                     /\ UNCHANGED creq
    [] e.e = "ie" -> /\ \/ kind # "S" /\ IsAdd(e) /\ ProcEnd
                        \/ \E t \in Threads : op[t].k = e.k /\ op[t].id = e.id /\ End(t)
                     /\ UNCHANGED creq
    [] OTHER -> FALSE
Next == \/ i <= Len(Ev) /\ Seen(Ev[i]) /\ i' = i + 1 /\ UNCHANGED c
        \/ i <= Len(Ev) /\ (Hidden \/ (creq /\ Cancel)) /\ UNCHANGED << c, i, creq >>
Spec == Init /\ [][Next]_tvars
Reached == (i = Len(Ev) + 1) => PrintT("REACHED " \o ToJson([case |-> c]))
=============================================================================
