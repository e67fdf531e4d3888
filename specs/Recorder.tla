------------------------------ MODULE Recorder ------------------------------
(***************************************************************************)
(* The recorders of performance events: eight kinds, in four families       *)
(* ("raw", "group", "interval", "single") with plain or histogram points.   *)
(* Times are microseconds since the start of the history.  What the clock   *)
(* decides is known as an interval << lo, hi >>: every call is known to run  *)
(* between its t0 and t1.                                                    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC

Family(kind) == CASE kind \in {"raw", "hraw"} -> "raw" [] kind \in {"group", "hgroup"} -> "group"
                  [] kind \in {"interval", "hinterval"} -> "interval" [] OTHER -> "single"
IsHdr(kind) == kind \in {"hraw", "hgroup", "hinterval", "hsingle"}
CounterMax == 10000      \* every histogram takes counters up to here
CounterHuge == 1000000   \* no histogram takes counters above

Zero(hdr) == IF hdr THEN <<>> ELSE 0
(* cn: counters n, ops, size, errs (a number, or the sorted values recorded) *)
(* dur: operation time; tot: the measured and given totals, intervals;       *)
(* alts: the times the point may carry; stale: it was written with them      *)
FreshCn(hdr) == [n |-> Zero(hdr), ops |-> Zero(hdr), size |-> Zero(hdr), errs |-> Zero(hdr)]
InitRec(kind, ivl, t0, t1) ==
  [kind |-> kind, hdr |-> IsHdr(kind), ivl |-> ivl,
   cn |-> FreshCn(IsHdr(kind)), dur |-> Zero(IsHdr(kind)), tot |-> <<>>, ids |-> {0},
   alts |-> {}, stale |-> FALSE, dirty |-> FALSE, started |-> <<>>,
   state |-> 0, workers |-> 0, failed |-> FALSE, err |-> FALSE,
   last |-> IF kind = "group" THEN << t0, t1 >> ELSE <<>>,     \* last time it was written; <<>>: not known
   running |-> FALSE, since |-> 0, canceled |-> FALSE]

RECURSIVE Insert(_, _)
Insert(s, v) == IF s = <<>> \/ v >= s[Len(s)] THEN Append(s, v)
                ELSE Append(Insert(SubSeq(s, 1, Len(s) - 1), v), s[Len(s)])

Count(st, f, v) ==
  IF ~st.hdr THEN [st EXCEPT !.cn[f] = @ + v, !.dirty = TRUE]
  ELSE IF v > CounterHuge THEN [st EXCEPT !.err = TRUE]
  ELSE [st EXCEPT !.cn[f] = Insert(@, v), !.dirty = TRUE]
AddDur(st, d) == IF st.hdr THEN [st EXCEPT !.dur = Insert(@, d), !.dirty = TRUE] ELSE [st EXCEPT !.dur = @ + d, !.dirty = TRUE]
AddTot(st, lo, hi) == [st EXCEPT !.tot = Append(@, << IF lo < 0 THEN 0 ELSE lo, hi >>), !.dirty = TRUE]

(* when does the point get its time: from the first BeginIteration after it  *)
(* was written (or SetTime), else from the end of the iteration              *)
BeginTime(st, t0, t1) == IF st.alts = {} \/ st.stale THEN [st EXCEPT !.alts = { << t0, t1 >> }, !.stale = FALSE]
                         ELSE [st EXCEPT !.alts = @ \cup { << t0, t1 >> }]
EndTime(st, t0, t1) == IF st.alts = {} THEN [st EXCEPT !.alts = {IF st.started # <<>> THEN st.started ELSE << t0, t1 >>}]
                       ELSE IF st.stale THEN [st EXCEPT !.alts = @ \cup { << t0, t1 >> }, !.stale = FALSE] ELSE st

Begin(st, t0, t1) ==
  LET s1 == [BeginTime(st, t0, t1) EXCEPT !.started = << t0, t1 >>]
  IN IF Family(st.kind) = "interval" /\ ~st.running THEN [s1 EXCEPT !.running = TRUE, !.since = t0] ELSE s1
Elapsed(st, t0, t1) == IF st.started = <<>> THEN st ELSE [AddTot(st, t0 - st.started[2], t1 - st.started[1]) EXCEPT !.started = <<>>]
\* does the end of an iteration write the point ("must", "may", "no")?
EndWrites(st, t0, t1) ==
  CASE Family(st.kind) = "raw" -> "must"
    [] Family(st.kind) = "group" -> IF st.last = <<>> THEN "may"
                                    ELSE IF t0 - st.last[2] >= st.ivl THEN "must"
                                    ELSE IF t1 - st.last[1] < st.ivl THEN "no" ELSE "may"
    [] OTHER -> "no"
End(st, d, t0, t1) == AddDur(Count(Elapsed(EndTime(st, t0, t1), t0, t1), "n", 1), d)

(* the end of a test writes what was not written.  A point that never got a  *)
(* time, or did not change since it was written, may be written or not.      *)
TestWrites(st) == IF Family(st.kind) = "single" THEN "must"
                  ELSE IF st.dirty /\ st.alts # {} THEN "must" ELSE "may"
\* an iteration that was not ended may be counted in the total
TestPoint(st, t0, t1) == LET s1 == EndTime(st, t0, t1)
                         IN IF st.started = <<>> THEN s1
                            ELSE [s1 EXCEPT !.tot = Append(@, << 0 - 1, t1 - st.started[1] >>)]
Clear(st) == [st EXCEPT !.cn = FreshCn(st.hdr), !.dur = Zero(st.hdr), !.tot = <<>>, !.ids = @ \cup {0},
                        !.alts = {}, !.stale = FALSE, !.dirty = FALSE, !.started = <<>>, !.err = FALSE,
                        !.last = <<>>, !.running = FALSE]

(* after the point was written *)
Written(st, fail, t0, t1) == [st EXCEPT !.dirty = FALSE, !.stale = TRUE, !.last = << t0, t1 >>, !.err = @ \/ fail]
\* the background writer starts a new point each time
Ticked(st, fail) == [st EXCEPT !.cn = FreshCn(st.hdr), !.dur = Zero(st.hdr), !.tot = <<>>, !.ids = @ \cup {0},
                               !.alts = {}, !.stale = FALSE, !.dirty = FALSE, !.err = @ \/ fail]
TickPoint(st, t) == IF st.alts # {} THEN st ELSE [st EXCEPT !.alts = {IF st.started # <<>> THEN st.started ELSE << 0, t >>, << 0, t >>}]

(***** is p what the recorder must write? *************************************)
SumLo(tot) == FoldLeft(LAMBDA a, x : IF x[1] < 0 THEN a ELSE a + x[1], 0, tot)
SumHi(tot) == FoldLeft(LAMBDA a, x : a + x[2], 0, tot)
SumOf(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Near(a, b) == a - b <= 2 + (b \div 50000) /\ b - a <= 2 + (b \div 50000)
SlackOf(s) == FoldLeft(LAMBDA a, x : a + 2 + (x \div 50000), 2, s)
Must(tot) == Len(SelectSeq(tot, LAMBDA x : x[1] >= 0))
TotOK(st, p) ==
  IF st.hdr
  THEN /\ Len(p.total) >= Must(st.tot) /\ Len(p.total) <= Len(st.tot)
       /\ SumOf(p.total) + SlackOf(p.total) >= SumLo(st.tot) /\ SumOf(p.total) <= SumHi(st.tot) + SlackOf(p.total)
  ELSE p.total + Len(st.tot) + 1 >= SumLo(st.tot) /\ p.total <= SumHi(st.tot) + Len(st.tot) + 1
DurOK(st, p) == IF st.hdr THEN Len(p.dur) = Len(st.dur) /\ \A i \in 1..Len(st.dur) : Near(p.dur[i], st.dur[i]) ELSE p.dur = st.dur
TimeOK(st, p) == \E a \in st.alts : a[1] - 2 <= p.ts /\ p.ts <= a[2] + 2
PointOK(st, p) ==
  /\ p.n = st.cn.n /\ p.ops = st.cn.ops /\ p.size = st.cn.size /\ p.errs = st.cn.errs
  /\ DurOK(st, p) /\ TotOK(st, p) /\ TimeOK(st, p)
  /\ p.id \in st.ids /\ p.state = st.state /\ p.workers = st.workers /\ p.failed = st.failed

(***** the other calls ********************************************************)
Simple(st, op, v) ==
  CASE op = "iter" -> Count(st, "n", v)
    [] op = "ops" -> Count(st, "ops", v)
    [] op = "size" -> Count(st, "size", v)
    [] op = "error" -> Count(st, "errs", v)
    [] op = "state" -> [st EXCEPT !.state = v]
    [] op = "workers" -> [st EXCEPT !.workers = v]
    [] op = "failed" -> [st EXCEPT !.failed = (v = 1)]
    [] op = "id" -> [st EXCEPT !.ids = {v}]
    [] op = "time" -> [st EXCEPT !.alts = { << v, v >> }, !.stale = FALSE]
    [] op = "dur" -> IF st.kind = "raw" THEN [st EXCEPT !.dur = v, !.dirty = TRUE] ELSE AddDur(st, v)
    [] op = "total" -> IF st.kind = "raw" THEN [st EXCEPT !.tot = << << v, v >> >>, !.dirty = TRUE] ELSE AddTot(st, v, v)
    [] OTHER -> st
SimpleOps == {"iter", "ops", "size", "error", "state", "workers", "failed", "id", "time", "dur", "total"}
=============================================================================
