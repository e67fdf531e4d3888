------------------------------ MODULE Buffered ------------------------------
(***************************************************************************)
(* Collectors that are used concurrently.                                  *)
(*   kind "B"   a buffered collector: Add puts the sample in a pipe of      *)
(*              `size` entries, a worker moves samples to the inner         *)
(*              collector; everything else waits until what was added       *)
(*              before has arrived                                          *)
(*   kind "S"   a synchronized collector: one operation at a time           *)
(*   kind "SB"  a synchronized collector around a buffered one              *)
(* Threads run operations [k, id]: "add", "bad" (a sample that the inner    *)
(* collector refuses), "meta", "resolve", "info", "reset".                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Threads

VARIABLES kind, size,
          pipe,       \* samples and markers on the way: [k, id, t]
          cancelled,  \* the context is done
          closed,     \* nothing is added to the pipe any more
          wpc, cur,   \* the worker: "run", "lock", "drain", "done"; what it holds
          wproc,      \* the worker is inside Add of the inner collector
          readers,    \* threads inside Add of the buffered collector
          sig,        \* threads whose marker has arrived
          mu,         \* threads that hold the mutex of the synchronized collector
          inner, meta, bad,   \* samples, metadata and errors of the inner collector
          sent,       \* every sample accepted, in order (history)
          all,        \* every sample that reached the inner collector (history)
          pc, op, res
buf  == << pipe, cancelled, closed, wpc, cur, wproc, readers, sig >>
coll == << inner, meta, bad, all >>
vars == << kind, size, buf, mu, coll, sent, pc, op, res >>
worker == << wpc, cur, wproc >>

None == [k |-> "none", id |-> 0, t |-> 0]
NoRes == [ok |-> TRUE, ids |-> <<>>, n |-> -1, m |-> 0]
Failed == [NoRes EXCEPT !.ok = FALSE]
IsAdd(o) == o.k \in {"add", "bad"}
Outer(o) == kind \in {"S", "SB"}

InitWith(k, s) ==
  /\ kind = k /\ size = s /\ pipe = <<>> /\ cancelled = FALSE /\ closed = FALSE
  /\ wpc = "run" /\ cur = None /\ wproc = FALSE /\ readers = {} /\ sig = {} /\ mu = {}
  /\ inner = <<>> /\ meta = 0 /\ bad = 0 /\ sent = <<>> /\ all = <<>>
  /\ pc = [t \in Threads |-> "idle"] /\ op = [t \in Threads |-> [k |-> "none", id |-> 0]] /\ res = [t \in Threads |-> NoRes]

Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Answer(t, r) == res' = [res EXCEPT ![t] = r]

Invoke(t, o) ==
  /\ pc[t] = "idle" /\ op' = [op EXCEPT ![t] = o] /\ Answer(t, NoRes)
  /\ Go(t, IF kind = "B" THEN "enter" ELSE "want")
  /\ UNCHANGED << kind, size, buf, mu, coll, sent >>

(* the synchronized collector *)
Lock(t) ==
  /\ pc[t] = "want"
  /\ \A u \in mu : op[u].k = "info" /\ op[t].k = "info"
  /\ mu' = mu \cup {t} /\ Go(t, IF kind = "S" THEN "act" ELSE "enter")
  /\ UNCHANGED << kind, size, buf, coll, sent, op, res >>
Unlock(t) ==
  /\ pc[t] = "out" /\ mu' = mu \ {t} /\ Go(t, "ret")
  /\ UNCHANGED << kind, size, buf, coll, sent, op, res >>
Return(t) ==
  /\ pc[t] = "ret" /\ Go(t, "idle")
  /\ UNCHANGED << kind, size, buf, mu, coll, sent, op, res >>

(* adding to the pipe *)
Refused(t) == IF IsAdd(op[t]) THEN Go(t, "out") /\ Answer(t, Failed) ELSE Go(t, "wdone") /\ UNCHANGED res
Enter(t) ==
  /\ pc[t] = "enter" /\ wpc # "lock"
  /\ IF closed THEN Refused(t) /\ UNCHANGED readers
     ELSE Go(t, "sel") /\ readers' = readers \cup {t} /\ UNCHANGED res
  /\ UNCHANGED << kind, size, pipe, cancelled, closed, worker, sig, mu, coll, sent, op >>
GiveUp(t) ==
  /\ pc[t] = "sel" /\ cancelled /\ Refused(t) /\ readers' = readers \ {t}
  /\ UNCHANGED << kind, size, pipe, cancelled, closed, worker, sig, mu, coll, sent, op >>
Send(t) ==
  LET it == [k |-> op[t].k, id |-> op[t].id, t |-> t] IN
  /\ pc[t] = "sel"
  /\ \/ Len(pipe) < size /\ pipe' = Append(pipe, it) /\ UNCHANGED cur
     \/ size = 0 /\ wpc = "run" /\ cur = None /\ cur' = it /\ UNCHANGED pipe
  /\ readers' = readers \ {t}
  /\ IF IsAdd(op[t]) THEN Go(t, "out") /\ sent' = Append(sent, op[t].id)
     ELSE Go(t, "wsig") /\ UNCHANGED sent
  /\ UNCHANGED << kind, size, cancelled, closed, wpc, wproc, sig, mu, coll, op, res >>
Arrived(t) ==
  /\ \/ pc[t] = "wsig" /\ t \in sig /\ sig' = sig \ {t}
     \/ pc[t] = "wdone" /\ wpc = "done" /\ UNCHANGED sig
  /\ IF op[t].k = "resolve" /\ bad > 0 THEN Go(t, "out") /\ Answer(t, Failed) ELSE Go(t, "act") /\ UNCHANGED res
  /\ UNCHANGED << kind, size, pipe, cancelled, closed, worker, readers, mu, coll, sent, op >>

(* calls of the inner collector by the threads *)
Begin(t) ==
  /\ pc[t] = "act" /\ Go(t, "in")
  /\ UNCHANGED << kind, size, buf, mu, coll, sent, op, res >>
End(t) ==
  /\ pc[t] = "in" /\ Go(t, "out")
  /\ CASE op[t].k = "add" -> inner' = Append(inner, op[t].id) /\ all' = Append(all, op[t].id) /\ sent' = Append(sent, op[t].id) /\ UNCHANGED << meta, res >>
       [] op[t].k = "bad" -> Answer(t, Failed) /\ UNCHANGED << inner, all, sent, meta >>
       [] op[t].k = "meta" -> meta' = op[t].id /\ UNCHANGED << inner, all, sent, res >>
       [] op[t].k = "reset" -> inner' = <<>> /\ UNCHANGED << all, sent, meta, res >>
       [] op[t].k = "info" -> Answer(t, [NoRes EXCEPT !.n = Len(inner)]) /\ UNCHANGED << inner, all, sent, meta >>
       [] op[t].k = "resolve" -> Answer(t, IF inner = <<>> THEN Failed ELSE [NoRes EXCEPT !.ids = inner, !.m = meta]) /\ UNCHANGED << inner, all, sent, meta >>
  /\ UNCHANGED << kind, size, buf, mu, bad, op >>

(* the worker *)
Receive ==
  /\ cur = None /\ wpc \in {"run", "drain"} /\ pipe # <<>>
  /\ cur' = Head(pipe) /\ pipe' = Tail(pipe)
  /\ UNCHANGED << kind, size, cancelled, closed, wpc, wproc, readers, sig, mu, coll, sent, pc, op, res >>
ProcBegin ==
  /\ cur # None /\ IsAdd(cur) /\ ~wproc /\ wproc' = TRUE
  /\ UNCHANGED << kind, size, pipe, cancelled, closed, wpc, cur, readers, sig, mu, coll, sent, pc, op, res >>
ProcEnd ==
  /\ wproc /\ wproc' = FALSE /\ cur' = None
  /\ IF cur.k = "add" THEN inner' = Append(inner, cur.id) /\ UNCHANGED bad ELSE bad' = bad + 1 /\ UNCHANGED inner
  /\ all' = Append(all, cur.id)
  /\ UNCHANGED << kind, size, pipe, cancelled, closed, wpc, readers, sig, mu, meta, sent, pc, op, res >>
Signal ==
  /\ cur # None /\ ~IsAdd(cur) /\ sig' = sig \cup {cur.t} /\ cur' = None
  /\ UNCHANGED << kind, size, pipe, cancelled, closed, wpc, wproc, readers, mu, coll, sent, pc, op, res >>
Notice ==
  /\ cur = None /\ wpc = "run" /\ cancelled /\ wpc' = "lock"
  /\ UNCHANGED << kind, size, pipe, cancelled, closed, cur, wproc, readers, sig, mu, coll, sent, pc, op, res >>
Close ==
  /\ wpc = "lock" /\ readers = {} /\ closed' = TRUE /\ wpc' = "drain"
  /\ UNCHANGED << kind, size, pipe, cancelled, cur, wproc, readers, sig, mu, coll, sent, pc, op, res >>
Finish ==
  /\ wpc = "drain" /\ cur = None /\ pipe = <<>> /\ wpc' = "done"
  /\ UNCHANGED << kind, size, pipe, cancelled, closed, cur, wproc, readers, sig, mu, coll, sent, pc, op, res >>
Cancel ==
  /\ ~cancelled /\ cancelled' = TRUE
  /\ UNCHANGED << kind, size, pipe, closed, worker, readers, sig, mu, coll, sent, pc, op, res >>

Hidden == \/ \E t \in Threads : Lock(t) \/ Unlock(t) \/ Enter(t) \/ GiveUp(t) \/ Send(t) \/ Arrived(t)
          \/ (kind # "S" /\ (Receive \/ Signal \/ Notice \/ Close \/ Finish))
Worker == kind # "S" /\ (Receive \/ Signal \/ Notice \/ Close \/ Finish \/ ProcBegin \/ ProcEnd)

----------------------------------------------------------------------------
(* what has to hold *)
RECURSIVE Ids(_)
Ids(p) == IF p = <<>> THEN <<>> ELSE (IF IsAdd(p[1]) THEN << p[1].id >> ELSE <<>>) \o Ids(Tail(p))
\* nothing is lost, repeated or reordered on the way
Conserved == kind # "S" => sent = all \o Ids(IF cur = None THEN <<>> ELSE << cur >>) \o Ids(pipe)
\* at most the buffer (and what the worker holds) is on the way
Bounded == Len(pipe) <= size
\* the inner collector is used by one at a time where that is promised
Inside == {t \in Threads : pc[t] = "in" /\ op[t].k # "info"}
Exclusive == (kind # "B") => (Cardinality(Inside) <= 1 /\ (wproc => Inside = {}))
=============================================================================
