--------------------------- MODULE TraceHistogram ---------------------------
(* Recorded histograms, their documents and texts agree with Histogram.tla.  *)
EXTENDS Histogram, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
vars == << c, l >>
Report(ok, what, exp, got) ==
  IF ok THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([case |-> c, what |-> what, exp |-> exp, got |-> got]))
HistOf(x) == FoldLeft(LAMBDA a, r : Record(a, r.v, r.n), NewHist(x.lo, x.hi, x.fig), x.rec)
Same(h, b) == b.err = "" /\ b.panic = "" /\ b.h = h /\ b.total = Total(h)
\* x: a histogram that was made, filled and written in every form
CheckHist(x) ==
  LET h == HistOf(x) IN
  /\ Report(x.panic = "", "panic", "", x.panic)
  /\ \A i \in 1..Len(x.rec) : Report(x.rec[i].ok = CanRecord(h, x.rec[i].v), "recording", CanRecord(h, x.rec[i].v), x.rec[i])
  /\ x.panic = "" =>
     /\ Report(x.doc = HistDoc(h), "document", h, x.doc)
     /\ Report(x.bson = EncDoc(HistDoc(h)), "bytes", "", x.bson)
     /\ LET r == ReadJSONH(x.json) IN Report(r.c = "ok" /\ r.h = h, "json", h, x.json)
     /\ Report(Same(h, x.bback), "read back from bson", h, x.bback)
     /\ Report(Same(h, x.jback), "read back from json", h, x.jback)
\* x: a document or a text that is read
CheckRead(x) ==
  LET r == IF x.form = "json" THEN ReadJSONH(x.text) ELSE IF x.form = "bson" THEN ReadDocH(x.es) ELSE [c |-> IF WellFormed(x.text) THEN "loose" ELSE "bad"] IN
  /\ Report(x.back.panic = "", "panic", "", x.back.panic)
  /\ x.back.panic = "" =>
     CASE r.c = "ok" -> Report(Same(r.h, x.back), "read", r.h, x.back)
       [] r.c = "bad" -> Report(x.back.err # "", "a malformed histogram is read", "an error", x.back) /\ Report(x.back.kept, "a refused histogram changes the receiver", "", "")
       [] OTHER -> TRUE
\* x: the document of a performance histogram
Bool(b) == Scalar(8, << IF b THEN 1 ELSE 0 >>)
Sub(k, es) == Elem(A(k), MkV(3, <<>>, <<>>, es))
HE(k, x) == Sub(k, HistDoc(HistOf(x)))
PerfDoc(x) == << Elem(A("ts"), Scalar(9, x.ts)), Elem(A("id"), Scalar(18, x.id)),
  Sub("counters", << HE("n", x.hs[1]), HE("ops", x.hs[2]), HE("size", x.hs[3]), HE("errors", x.hs[4]) >>),
  Sub("timers", << HE("dur", x.hs[5]), HE("total", x.hs[6]) >>),
  Sub("gauges", << Elem(A("state"), Scalar(18, x.state)), Elem(A("workers"), Scalar(18, x.workers)), Elem(A("failed"), Bool(x.failed)) >>) >>
CheckPerf(x) == /\ Report(x.panic = "", "panic", "", x.panic)
                /\ Report(x.doc = PerfDoc(x), "document of a performance histogram", PerfDoc(x), x.doc)
Check(x) == CASE x.op = "hist" -> CheckHist(x) [] x.op = "read" -> CheckRead(x) [] x.op = "perf" -> CheckPerf(x)
Init == c \in 1..Len(Cases) /\ l = 0
Next == l = 0 /\ l' = 1 /\ Check(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
