--------------------------- MODULE TraceMetricsDoc ---------------------------
(* Recorded documents and histories of collections agree with MetricsDoc.tla *)
EXTENDS MetricsDoc, Json, IOUtils, SequencesExt
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, known
vars == << c, i, known >>
Report(ok, what, exp, got) ==
  IF ok THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([case |-> c, what |-> what, exp |-> exp, got |-> got]))
Steps == Cases[c].steps
Counters == {"mallocs", "frees", "gc", "cgo"}
Init == c \in 1..Len(Cases) /\ i = 1 /\ known = [k \in Counters |-> [lo |-> 0, hi |-> 0]]
\* an int may be written with either width
RECURSIVE Wide(_)
Wide(es) == [j \in 1..Len(es) |->
   LET v == es[j].v IN
   [es[j] EXCEPT !.v = IF v.t = 16 THEN Scalar(18, v.s \o (IF v.s[4] >= 128 THEN <<255, 255, 255, 255>> ELSE <<0, 0, 0, 0>>))
                       ELSE [v EXCEPT !.e = Wide(v.e)]]]
Doc(x) == LET want == DocOf(x) IN
  /\ Report(x.panic = "" /\ x.err = "", "no document", "", << x.panic, x.err >>)
  /\ Report(Wide(x.d) = Wide(want), x.n, want, x.d)
  /\ UNCHANGED known
Sum(seq, k) == FoldLeft(LAMBDA acc, v : acc + v[k], 0, seq)
\* x.b, x.a: the counters before and after, x.v: what was collected, x.g: gauges
Coll(x) ==
  LET new == [k \in Counters |-> CASE x.n = "total" -> AfterTotal(known[k], x.b[k], x.a[k], x.v[k])
                                    [] x.n = "delta" -> AfterDelta(known[k], x.b[k], x.a[k], x.v[k])
                                    [] x.n = "par" -> AfterDelta(known[k], x.b[k], x.a[k], Sum(x.vs, k))
                                    [] OTHER -> AfterOther(known[k], x.b[k], x.a[k], 0)]
  IN /\ Report(x.panic = "", "panic", "", x.panic)
     /\ \A k \in Counters : Report(Sane(new[k]), x.n \o " of " \o k, << known[k], x.b[k], x.a[k] >>, IF x.n = "par" THEN x.vs ELSE x.v)
     /\ (x.n = "par" => \A j \in 1..Len(x.vs) : \A k \in Counters : Report(x.vs[j][k] >= 0, "a delta below zero", 0, x.vs[j]))
     \* rates are deltas by nanoseconds, rounded down
     /\ (x.n = "rate" => \A k \in Counters : Report(x.v[k] >= 0 /\ x.v[k] <= (x.a[k] - known[k].lo) \div x.ns, "rate of " \o k, (x.a[k] - known[k].lo) \div x.ns, x.v))
     /\ (x.n = "total" => Report(x.g.objects = x.v["mallocs"] - x.v["frees"], "objects of the heap", x.v, x.g))
     /\ (x.n \in {"total", "delta", "rate"} =>
           /\ Report(x.g.sys = x.g.idle + x.g.used, "memory of the heap", x.g.sys, x.g)
           /\ Report(x.g.goroutines \in MinOf(x.g.gob, x.g.goa)..MaxOf(x.g.gob, x.g.goa), "goroutines", << x.g.gob, x.g.goa >>, x.g)
           /\ (x.b["gc"] = x.a["gc"] => Report(x.g.latency \in x.g.latlo..x.g.lathi, "time since the last collection of garbage", << x.g.latlo, x.g.lathi >>, x.g))
           /\ (x.b["gc"] = x.a["gc"] => Report(x.g.pause = x.g.lastpause, "pause", x.g.lastpause, x.g)))
     /\ (x.n = "basic" => Report(x.names, "names of the basic statistics", TRUE, x.names))
     \* x.v: the rates by the time that at least went by, x.pos: which are above zero
     /\ (x.n = "basic" => \A k \in Counters : /\ Report(x.v[k] <= x.a[k] - known[k].lo, "basic rate of " \o k, x.a[k] - known[k].lo, x.v)
                                               /\ Report(x.b[k] > known[k].hi => x.pos[k] = 1, "basic rate of zero of " \o k, << known[k], x.b[k] >>, x.pos))
     /\ \A k \in Counters : Sane(new[k])
     /\ known' = new
Next ==
  /\ i <= Len(Steps)
  /\ IF Steps[i].n \in {"golang", "system", "process", "runtime"} THEN Doc(Steps[i]) ELSE Coll(Steps[i])
  /\ i' = i + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
