---------------------------- MODULE BufferedModel ---------------------------
(* All interleavings of small programs on a concurrently used collector.    *)
EXTENDS Buffered
CONSTANTS MaxOps, KindSizes, Alone, OpKinds
VARIABLES prog, okd   \* operations left per thread; samples whose Add had returned before a thread's call
mvars == << vars, prog, okd >>
Acked == {i \in 1..Len(sent) : \A t \in Threads : ~(pc[t] \in {"out", "ret"} /\ IsAdd(op[t]) /\ op[t].id = sent[i])}
Init == /\ \E ks \in KindSizes : InitWith(ks[1], ks[2])
        /\ prog = [t \in Threads |-> MaxOps] /\ okd = [t \in Threads |-> {}]
KS == {<< "B", 0 >>, << "B", 1 >>, << "SB", 0 >>, << "SB", 1 >>, << "S", 0 >>}
KSB == {<< "B", 0 >>, << "B", 1 >>, << "SB", 1 >>}
KSAlone == {<< "B", 0 >>, << "B", 1 >>, << "B", 2 >>}
Left == prog' = prog /\ okd' = okd
Call(t) == /\ prog[t] > 0 /\ prog' = [prog EXCEPT ![t] = @ - 1]
           /\ (Alone => \A u \in Threads : pc[u] = "idle" \/ (u # t /\ IsAdd(op[u])))
           /\ \E k \in OpKinds : /\ (Alone /\ k \notin {"add", "bad"} => \A u \in Threads : pc[u] = "idle")
                                 /\ Invoke(t, [k |-> k, id |-> 10 * t + prog[t]])
           /\ okd' = [okd EXCEPT ![t] = {sent[i] : i \in Acked}]
Next == \/ \E t \in Threads : Call(t)
        \/ (Hidden \/ (kind # "S" /\ (ProcBegin \/ ProcEnd \/ Cancel)) \/ \E t \in Threads : Begin(t) \/ End(t) \/ Return(t)) /\ Left
        \/ (\A t \in Threads : pc[t] = "idle" /\ prog[t] = 0) /\ UNCHANGED mvars
Fair == /\ \A t \in Threads : SF_mvars((Lock(t) \/ Enter(t) \/ GiveUp(t) \/ Send(t)) /\ Left) /\ WF_mvars((Unlock(t) \/ Arrived(t) \/ Begin(t) \/ End(t) \/ Return(t)) /\ Left)
        /\ WF_mvars(Worker /\ Left)
Spec == Init /\ [][Next]_mvars /\ Fair

\* resolving sees every sample whose Add had returned (unless reset in between)
Complete == \A t \in Threads : (pc[t] = "in" /\ op[t].k \in {"resolve", "info"} /\ kind # "S") =>
              okd[t] \subseteq {all[i] : i \in 1..Len(all)}
\* with one caller at a time (adds aside) the inner collector is never entered twice
ExclusiveAlone == Alone => (wproc => Inside = {} /\ \A t \in Threads : pc[t] # "in")
AllReturn == \A t \in Threads : []<>(pc[t] = "idle")
\* once canceled the worker ends
Ends == cancelled ~> (wpc = "done" \/ kind = "S")
=============================================================================
