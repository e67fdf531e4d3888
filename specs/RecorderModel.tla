---------------------------- MODULE RecorderModel ----------------------------
(* Every short use of every recorder, on a clock that advances by one at     *)
(* each step, with the background writer of the interval recorders free to   *)
(* write at any moment; and the laws of what reaches the collector.          *)
EXTENDS Recorder, Json
CONSTANTS MaxOps, Kinds, Extra
VARIABLES st, h, now, outs, given, lost
vars == << st, h, now, outs, given, lost >>

Op(o, v) == [op |-> o, v |-> v]
Common == {Op("begin", 0), Op("end", 5), Op("ops", 3), Op("test", 0), Op("reset", 0), Op("time", 0 - 1000000)}
More == {Op("end", 0), Op("iter", 2), Op("size", 4), Op("error", 6), Op("state", 2), Op("workers", 3), Op("failed", 1), Op("id", 7), Op("dur", 9),
         Op("total", 11), Op("fail", 1), Op("sleep", 300)}
ExtraQuick == {Op("state", 2)}
ExtraDeep == {Op("state", 2), Op("dur", 9), Op("fail", 1), Op("id", 7)}
ExtraNone == {}
Background == {Op("await", 3000000), Op("slow", 6000), Op("cancel", 0)}
Palette(kind) == Common \cup Extra \cup (IF Family(kind) = "interval" THEN Background ELSE {})
IvlOf(kind) == CASE kind = "interval" -> {2000} [] kind = "hinterval" -> {60000} [] kind \in {"group", "hgroup"} -> {0, 200, 60000000} [] OTHER -> {0}

\* what was given to the recorder since the last test or reset, and what reached the collector
G0 == [n |-> 0, ops |-> 0, dur |-> 0, ends |-> 0, owed |-> 0]
Init == \E k \in Kinds : \E v \in IvlOf(k) :
          st = InitRec(k, v, 0, 0) /\ h = <<>> /\ now = 1 /\ outs = <<>> /\ given = G0 /\ lost = FALSE
Num(x) == IF st.hdr THEN SumOf(x) ELSE x
Out(s) == [n |-> IF s.hdr THEN SumOf(s.cn.n) ELSE s.cn.n, ops |-> IF s.hdr THEN SumOf(s.cn.ops) ELSE s.cn.ops,
           dur |-> IF s.hdr THEN SumOf(s.dur) ELSE s.dur, alts |-> s.alts, state |-> s.state]
Give(o) == CASE o.op = "ops" -> [given EXCEPT !.ops = @ + o.v] [] o.op = "iter" -> [given EXCEPT !.n = @ + o.v]
             [] o.op = "end" -> [given EXCEPT !.n = @ + 1, !.dur = @ + o.v, !.ends = @ + 1, !.owed = @ + 1]
             [] o.op = "dur" -> [given EXCEPT !.dur = IF st.kind = "raw" THEN o.v ELSE @ + o.v]
             [] o.op = "reset" -> G0 [] OTHER -> given
Do(o) ==
  /\ Len(h) < MaxOps /\ h' = Append(h, o) /\ now' = now + 1
  /\ o.op = "await" => (st.running /\ ~st.canceled)
  /\ CASE o.op \in SimpleOps -> st' = Simple(st, o.op, o.v) /\ given' = Give(o) /\ UNCHANGED << outs, lost >>
       [] o.op = "begin" -> st' = Begin(st, now, now) /\ UNCHANGED << outs, given, lost >>
       [] o.op = "end" -> LET s == End(st, o.v, now, now) IN
            \E w \in BOOLEAN :
              /\ EndWrites(st, now, now) = "must" => w
              /\ EndWrites(st, now, now) = "no" => ~w
              /\ IF w THEN st' = Written(s, FALSE, now, now) /\ outs' = Append(outs, Out(s)) ELSE st' = s /\ outs' = outs
              /\ given' = [Give(o) EXCEPT !.owed = IF w THEN 0 ELSE @] /\ UNCHANGED lost
       [] o.op = "test" -> LET s == TestPoint(st, now, now) IN
            \E w \in BOOLEAN :
              /\ TestWrites(st) = "must" => w
              /\ lost' = (lost \/ (~w /\ given.owed > 0))
              /\ st' = Clear(s) /\ given' = G0
              /\ outs' = <<>>
       [] o.op = "reset" -> st' = Clear(st) /\ given' = G0 /\ outs' = <<>> /\ UNCHANGED lost
       [] o.op = "cancel" -> st' = [st EXCEPT !.canceled = TRUE] /\ UNCHANGED << outs, given, lost >>
       [] OTHER -> UNCHANGED << st, outs, given, lost >>
Tick == /\ st.running /\ ~st.canceled /\ Len(outs) < 3
        /\ outs' = Append(outs, Out(TickPoint(st, now))) /\ st' = Ticked(st, FALSE) /\ now' = now + 1
        /\ given' = [given EXCEPT !.owed = 0] /\ UNCHANGED << h, lost >>
Next == (\E o \in Palette(st.kind) : Do(o)) \/ Tick
Spec == Init /\ [][Next]_vars

(***** laws *******************************************************************)
\* iterations that were counted are never dropped by the end of a test
NothingLost == ~lost
\* what was given is in the points written and in the one being filled, once
SumOuts(f) == FoldLeft(LAMBDA a, p : a + p[f], 0, outs)
Conserved ==
  IF Family(st.kind) = "interval"
  THEN \A f \in {"n", "ops", "dur"} : SumOuts(f) + Out(st)[f] = given[f]
  ELSE /\ \A f \in {"n", "ops", "dur"} : Out(st)[f] = given[f]
       /\ \A i \in 1..Len(outs) : \A f \in {"n", "ops"} : outs[i][f] <= given[f]
\* each raw iteration is one point; every point has a time
RawEach == Family(st.kind) = "raw" => Len(outs) = given.ends
HasTime == \A i \in 1..Len(outs) : outs[i].alts # {}
Laws == NothingLost /\ Conserved /\ RawEach /\ HasTime
Emit == (Len(h) = MaxOps) => PrintT("CASE " \o ToJson([kind |-> st.kind, ivl |-> st.ivl, ops |-> Append(h, Op("test", 0))]))
=============================================================================
