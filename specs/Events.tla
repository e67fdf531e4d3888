------------------------------- MODULE Events -------------------------------
(***************************************************************************)
(* Performance events: their documents, and the collectors that sum them.   *)
(* An event is [ts, id, n, ops, size, errs, dur, total, state, workers:     *)
(* 8-byte two's complement numbers (ts in milliseconds), failed: BOOLEAN].  *)
(***************************************************************************)
EXTENDS GoConv, FTDC

ZeroEvent == [ts |-> Zero8, id |-> Zero8, n |-> Zero8, ops |-> Zero8, size |-> Zero8, errs |-> Zero8,
              dur |-> Zero8, total |-> Zero8, state |-> Zero8, workers |-> Zero8, failed |-> FALSE]
One8 == << 1, 0, 0, 0, 0, 0, 0, 0 >>

(***** the document of an event **********************************************)
E64(k, b) == Elem(A(k), Scalar(18, b))
Sub(k, es) == Elem(A(k), MkV(3, <<>>, <<>>, es))
EventDoc(e) ==
  << Elem(A("ts"), Scalar(9, e.ts)), E64("id", e.id),
     Sub("counters", << E64("n", e.n), E64("ops", e.ops), E64("size", e.size), E64("errors", e.errs) >>),
     Sub("timers", << E64("dur", e.dur), E64("total", e.total) >>),
     Sub("gauges", << E64("state", e.state), E64("workers", e.workers),
                      Elem(A("failed"), Scalar(8, << IF e.failed THEN 1 ELSE 0 >>)) >>) >>

(* Reading an event from a document: the known fields it has are taken over *)
(* (the last one of a name wins), the others keep what they were.  A known  *)
(* field of another type is an error.                                        *)
Field(part, k) ==
  CASE part = "" -> (CASE k = A("ts") -> "ts" [] k = A("id") -> "id" [] k = A("counters") -> "counters"
                       [] k = A("timers") -> "timers" [] k = A("gauges") -> "gauges" [] OTHER -> "")
    [] part = "counters" -> (CASE k = A("n") -> "n" [] k = A("ops") -> "ops" [] k = A("size") -> "size" [] k = A("errors") -> "errs" [] OTHER -> "")
    [] part = "timers" -> (CASE k = A("dur") -> "dur" [] k = A("total") -> "total" [] OTHER -> "")
    [] part = "gauges" -> (CASE k = A("state") -> "state" [] k = A("workers") -> "workers" [] k = A("failed") -> "failed" [] OTHER -> "")
RECURSIVE ReadFields(_, _, _)
\* result [ok, wide, e]: wide when a 32-bit number stands where a 64-bit one belongs (either outcome is fine)
ReadFields(part, es, r) ==
  IF es = <<>> \/ ~r.ok THEN r
  ELSE LET f == Field(part, es[1].k)
           v == es[1].v
           rest == Tail(es)
       IN CASE f = "" -> ReadFields(part, rest, r)
            [] f \in {"counters", "timers", "gauges"} ->
                 IF v.t # 3 THEN [r EXCEPT !.ok = FALSE] ELSE ReadFields(part, rest, TLCEval(ReadFields(f, v.e, r)))
            [] f = "failed" -> IF v.t # 8 THEN [r EXCEPT !.ok = FALSE] ELSE ReadFields(part, rest, [r EXCEPT !.e.failed = (v.s[1] = 1)])
            [] f = "ts" -> IF v.t # 9 THEN [r EXCEPT !.ok = FALSE] ELSE ReadFields(part, rest, [r EXCEPT !.e.ts = v.s])
            [] OTHER -> CASE v.t = 18 -> ReadFields(part, rest, [r EXCEPT !.e[f] = v.s])
                          [] v.t = 16 -> ReadFields(part, rest, [r EXCEPT !.e[f] = SignExt8(v.s), !.wide = TRUE])
                          [] OTHER -> [r EXCEPT !.ok = FALSE]
ReadEvent(es, prior) == ReadFields("", es, [ok |-> TRUE, wide |-> FALSE, e |-> prior])

(***** summing ****************************************************************)
Combine(c, e) ==
  [ts |-> e.ts, id |-> IF e.id = Zero8 THEN Add64(c.id, One8) ELSE e.id,
   n |-> Add64(c.n, e.n), ops |-> Add64(c.ops, e.ops), size |-> Add64(c.size, e.size), errs |-> Add64(c.errs, e.errs),
   dur |-> Add64(c.dur, e.dur), total |-> Add64(c.total, e.total),
   state |-> e.state, workers |-> e.workers, failed |-> e.failed]

(* A collector of events: kind "basic", "pass", "sample" (every n-th, the   *)
(* first included), "random" (n percent), "interval" (one every n           *)
(* microseconds).  cur is the sum so far, count the events seen, lo and hi   *)
(* the earliest and latest moment of the last sample written.                *)
InitColl(kind, n) == [kind |-> kind, n |-> n, cur |-> <<>>, count |-> 0, lo |-> 0, hi |-> 0]
Sum(st, e) == IF st.cur = <<>> \/ st.kind = "pass" THEN e ELSE Combine(st.cur[1], e)
\* must this event be written to the collector below ("yes", "no", "any")?  t0 and t1: before and after the call
Writes(st, t0, t1) ==
  CASE st.kind \in {"basic", "pass"} -> "yes"
    [] st.kind = "sample" -> IF st.count % st.n = 0 THEN "yes" ELSE "no"
    [] st.kind = "random" -> IF st.n > 100 THEN "yes" ELSE IF st.n <= 0 THEN "no" ELSE "any"
    [] st.kind = "interval" -> IF st.cur = <<>> \/ t0 - st.hi >= st.n THEN "yes" ELSE IF t1 - st.lo < st.n THEN "no" ELSE "any"
AfterEvent(st, e, wrote, t0, t1) ==
  LET sum == Sum(st, e)
      s1 == [st EXCEPT !.cur = << sum >>, !.count = @ + 1]
  IN IF wrote THEN [s1 EXCEPT !.lo = t0, !.hi = t1] ELSE s1

(***** custom points **********************************************************)
PointKinds == {"int64", "int32", "int", "bool", "time", "float64", "float32", "uint32", "uint64"}
PointOK(g) == \/ g.g \in PointKinds
              \/ g.g = "seq" /\ \A i \in 1..Len(g.e) : g.e[i].v.g \in PointKinds
SameName(a, b) == a.k = b.k
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(Tail(a), Tail(b))
\* stable insertion by name
RECURSIVE InsertPt(_, _)
InsertPt(s, p) == IF s = <<>> THEN << p >>
                  ELSE IF LexLess(p.k, s[Len(s)].k) THEN Append(InsertPt(SubSeq(s, 1, Len(s) - 1), p), s[Len(s)])
                  ELSE Append(s, p)
RECURSIVE SortPts(_)
SortPts(s) == IF s = <<>> THEN <<>> ELSE TLCEval(InsertPt(SortPts(SubSeq(s, 1, Len(s) - 1)), s[Len(s)]))
=============================================================================
