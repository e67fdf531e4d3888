---------------------------- MODULE TraceEvents -----------------------------
(* Recorded histories of event collectors, and recorded conversions of       *)
(* events and custom points to documents and back.                           *)
EXTENDS Events, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, st
vars == << c, l, st >>
Report(ok, what, exp, got) ==
  IF ok THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([case |-> c, what |-> what, exp |-> exp, got |-> got]))

(***** histories **************************************************************)
StepOK(x, s) ==
  CASE s.op = "add" ->
         LET w == Writes(st, s.t0, s.t1)
             sum == TLCEval(Sum(st, s.e))
             wrote == s.outs # <<>>
         IN /\ Report(s.same, "the event of the caller", "unchanged", "changed")
            /\ IF s.fail
               THEN /\ Report(s.outs = <<>>, "written although the collector below failed", <<>>, s.outs)
                    /\ Report(~(w = "yes" /\ s.err = "") /\ ~(w = "no" /\ s.err # ""), "error of a failed write", w, s.err)
               ELSE /\ Report(s.err = "", "error", "", s.err)
                    /\ Report((w = "yes" => wrote) /\ (w = "no" => ~wrote) /\ Len(s.outs) <= 1, "whether it is written", w, Len(s.outs))
                    /\ wrote => Report(s.outs[1] = EventDoc(sum), "event written", EventDoc(sum), s.outs[1])
    [] s.op = "nil" -> Report(s.err # "" /\ s.outs = <<>>, "no event", "error", s.outs)
    [] s.op = "any" -> Report(s.err = "" /\ s.outs = <<>>, "something else than an event", <<>>, << s.err, s.outs >>)
    [] s.op = "info" -> Report(s.outs = <<>>, "written by Info", <<>>, s.outs)
    [] s.op \in {"reset", "meta"} -> Report(s.err = "" /\ s.same /\ s.outs = <<>>, "passed on", s.op, s.err)
AfterStep(s) == IF s.op = "add" THEN AfterEvent(st, s.e, IF s.fail THEN s.err # "" ELSE s.outs # <<>>, s.t0, s.t1) ELSE st
RECURSIVE OutsOf(_)
OutsOf(ss) == FlattenSeq([i \in 1..Len(ss) |-> ss[i].outs])
Finish(x) ==
  /\ Report(x.panic = "", "panic", "", x.panic)
  /\ x.final.all => /\ Report(x.final.err = "", "reading the series back", "", x.final.err)
                    /\ Report(x.final.docs = OutsOf(x.steps), "series read back", OutsOf(x.steps), x.final.docs)

(***** concurrent callers *****************************************************)
ReadOf(d) == ReadEvent(d, ZeroEvent).e
\* which event an output added: its size is different for each
Added(x, i) == IF i = 1 \/ x.kind = "pass" THEN ReadOf(x.outs[i]).size ELSE Sub64(ReadOf(x.outs[i]).size, ReadOf(x.outs[i - 1]).size)
CallersOK(x) ==
  LET all == FlattenSeq(x.evs)
      add == TLCEval([i \in 1..Len(x.outs) |-> Added(x, i)])
      pos(e) == CHOOSE i \in 1..Len(add) : add[i] = e.size
      ev(i) == CHOOSE e \in {all[j] : j \in 1..Len(all)} : e.size = add[i]
      ok == /\ Len(add) = Len(all)
            /\ \A j \in 1..Len(all) : \E i \in 1..Len(add) : add[i] = all[j].size
            /\ \A q \in 1..Len(x.evs) : \A j \in 1..(Len(x.evs[q]) - 1) : pos(x.evs[q][j]) < pos(x.evs[q][j + 1])
      sums == FoldLeft(LAMBDA acc, i : Append(acc, IF acc = <<>> \/ x.kind = "pass" THEN ev(i) ELSE Combine(acc[Len(acc)], ev(i))),
                       <<>>, [i \in 1..Len(add) |-> i])
  IN /\ Report(x.panic = "", "panic or error", "", x.panic)
     /\ Report(~x.overlap, "two calls at once", FALSE, TRUE)
     /\ Report(ok, "every event once, in the order of its caller", all, add)
     /\ ok => Report(x.outs = [i \in 1..Len(sums) |-> EventDoc(sums[i])], "events written by callers", sums, x.outs)

(***** conversions ************************************************************)
\* a fair coin lands within eight standard deviations (at most 32 for 4,000 events) and the rounding of the percentage
RateOK(x) == LET d == x.count * 100 - x.n * x.percent IN
  Report(x.panic = "" /\ d <= 100 * 300 /\ 0 - d <= 100 * 300, "share of events written", x.percent, x.count)
CodecOK(x) ==
  LET o == x.o IN
  /\ Report(o.panic = "" /\ o.err = "" /\ o.berr = "", "error or panic", "", << o.panic, o.err, o.berr >>)
  /\ Report(o.doc = EventDoc(x.e), "document of the event", EventDoc(x.e), o.doc)
  /\ Report(o.bytes = EncDoc(EventDoc(x.e)), "bytes of the event", EncDoc(EventDoc(x.e)), o.bytes)
  /\ Report(o.back = x.e, "event read back", x.e, o.back)
ReadOK(x) ==
  LET r == TLCEval(ReadEvent(x.doc, x.prior))
      o == x.o
  IN /\ Report(o.panic = "", "panic reading an event", r.ok, o.panic)
     /\ o.panic = "" =>
          /\ Report(IF r.ok THEN o.err = "" \/ r.wide ELSE o.err # "", "error reading an event", r.ok, o.err)
          /\ (r.ok /\ o.err = "") => Report(o.e = r.e, "event read", r.e, o.e)
SumOK(x) ==
  /\ Report(x.o.panic = "", "panic adding", "", x.o.panic)
  /\ Report(x.o.e = Combine(x.a, x.b), "sum of events", Combine(x.a, x.b), x.o.e)
  /\ Report(x.o.same, "the event added", "unchanged", "changed")
CustomOK(x) ==
  LET o == x.o
      acc == TLCEval(SelectSeq(x.pts, LAMBDA p : PointOK(p.v)))
      srt == TLCEval(SortPts(acc))
      can == \A i \in 1..Len(acc) : Convertible(acc[i].v)
  IN /\ Report(o.panic = "", "panic with custom points", "", o.panic)
     /\ Report(Len(o.errs) = Len(x.pts) /\ \A i \in 1..Len(x.pts) : (o.errs[i] = "") = PointOK(x.pts[i].v), "points accepted", [i \in 1..Len(x.pts) |-> PointOK(x.pts[i].v)], o.errs)
     /\ Report(\A i \in 1..Len(x.pts) : o.lens[i] = Len(SelectSeq(SubSeq(x.pts, 1, i), LAMBDA p : PointOK(p.v))), "number of points", Len(acc), o.lens)
     /\ Report([i \in 1..Len(o.sorted) |-> o.sorted[i].k] = [i \in 1..Len(srt) |-> srt[i].k] /\ o.sorted = srt, "sorted points", srt, o.sorted)
     /\ Report((o.merr = "") = can /\ (o.berr = "") = can, "error of the document of custom points", can, << o.merr, o.berr >>)
     /\ (o.merr = "" /\ can) =>
          /\ Report(Len(o.doc) = Len(srt) /\ \A i \in 1..Len(srt) : o.doc[i].k = srt[i].k /\ Represents(o.doc[i].v, srt[i].v), "document of custom points", srt, o.doc)
          /\ Report(o.bytes = EncDoc(o.doc), "bytes of custom points", o.doc, o.bytes)
          /\ Report(o.uerr = "", "reading custom points", "", o.uerr)
          /\ Report(Len(o.names) = Len(o.doc) /\ \A i \in 1..Len(o.doc) : o.names[i].k = o.doc[i].k /\ SameG(o.names[i].v, Export(o.doc[i].v)), "custom points read back", o.doc, o.names)
          /\ Report(o.collected = "", "collecting custom points", "", o.collected)

Init == c \in 1..Len(Cases) /\ l = 0 /\ st = IF Cases[c].k = "hist" THEN InitColl(Cases[c].kind, Cases[c].n) ELSE <<>>
Next ==
  LET x == Cases[c] IN
  IF x.k = "hist"
  THEN \/ /\ l < Len(x.steps) /\ l' = l + 1
          /\ StepOK(x, x.steps[l + 1])
          /\ st' = AfterStep(x.steps[l + 1]) /\ UNCHANGED c
       \/ l = Len(x.steps) /\ Finish(x) /\ l' = l + 1 /\ UNCHANGED << c, st >>
  ELSE /\ l = 0 /\ l' = 1 /\ UNCHANGED << c, st >>
       /\ CASE x.k = "callers" -> CallersOK(x)
            [] x.k = "rate" -> RateOK(x)
            [] x.k = "codec" -> CodecOK(x)
            [] x.k = "read" -> ReadOK(x)
            [] x.k = "sum" -> SumOK(x)
            [] x.k = "custom" -> CustomOK(x)
Spec == Init /\ [][Next]_vars
=============================================================================
