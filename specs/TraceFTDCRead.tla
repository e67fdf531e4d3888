---------------------------- MODULE TraceFTDCRead ---------------------------
(* What the readers made of recorded streams, sound and damaged.            *)
EXTENDS FTDCRead, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
vars == << c, l >>
Report(ok, what, exp, got) ==
  IF ok THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([case |-> c, what |-> what, exp |-> exp, got |-> got]))
Ended(o, s, what) ==
  /\ Report(o.panic = "", "panic in " \o what, "", o.panic)
  /\ (s = "ok") => Report(o.err = "", "error from " \o what, "", o.err)
  /\ (s = "err") => Report(o.err # "", "no error from " \o what, "error", "")
Amount(o, n, s, what) == Report(o.n = n \/ (s = "loose" /\ o.n >= n), "amount from " \o what, n, o.n)
FlatOK(fs, j, d) == d = FlatDoc(fs, j, FALSE) \/ d = FlatDoc(fs, j, TRUE)
MetOK(fs, m) == m = MetricList(fs, FALSE) \/ m = MetricList(fs, TRUE)
Check(x) ==
  LET r  == TLCEval(ReadStream(x.b, x.z))
      cs == r.chunks
      all == TLCEval(FlattenSeq([q \in 1..Len(cs) |-> [j \in 1..Len(cs[q].fs) |-> << q, j >>]]))
      o  == x.o
  IN  /\ Ended(o.chunks, r.s, "ReadChunks") /\ Ended(o.flat, r.s, "ReadMetrics") /\ Ended(o.struct, r.s, "ReadStructuredMetrics")
      /\ Ended(o.matrix, r.s, "ReadMatrix") /\ Ended(o.series, r.s, "ReadSeries")
      /\ (o.flat.n < 1000) => Report(x.mb < 100, "memory used (MB)", 100, x.mb)
      /\ Amount(o.chunks, Len(cs), r.s, "ReadChunks") /\ Amount(o.matrix, Len(cs), r.s, "ReadMatrix") /\ Amount(o.series, Len(cs), r.s, "ReadSeries")
      /\ Amount(o.flat, Len(all), r.s, "ReadMetrics") /\ Amount(o.struct, Len(all), r.s, "ReadStructuredMetrics")
      /\ (o.chunks.n >= Len(cs) /\ o.chunks.panic = "") => \A q \in 1..Len(cs) :
           IF Len(cs[q].fs[1]) = 0 THEN Report(o.sizes[q] = Len(cs[q].fs), "size", Len(cs[q].fs), o.sizes[q])
           ELSE /\ Report(o.sizes[q] = Len(cs[q].fs), "size", Len(cs[q].fs), o.sizes[q])
                /\ Report(MetOK(cs[q].fs, o.mets[q]), "metrics", MetricList(cs[q].fs, FALSE), o.mets[q])
                /\ Report(o.metas[q] = cs[q].meta, "metadata of a chunk", cs[q].meta, o.metas[q])
      /\ (o.flat.n >= Len(all) /\ o.flat.panic = "") => \A a \in 1..Len(all) :
           Report(FlatOK(cs[all[a][1]].fs, all[a][2], o.docs[a]), "sample", FlatDoc(cs[all[a][1]].fs, all[a][2], FALSE), o.docs[a])
Init == c \in 1..Len(Cases) /\ l = 0
Next == l = 0 /\ l' = 1 /\ Check(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
