------------------------------ MODULE TraceFTDC -----------------------------
(* Recorded collections: what was added, the bytes, and every view of them. *)
EXTENDS FTDC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
vars == << c, l >>
Report(ok, what, exp, got) ==
  IF ok THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([case |-> c, what |-> what, exp |-> exp, got |-> got]))
Either(v(_), got, what) == Report(got = v(FALSE) \/ got = v(TRUE), what, v(FALSE), got)
AsSet(s) == {s[i] : i \in 1..Len(s)}
\* one chunk: the samples it must hold
CheckChunk(x, samples, q, base) ==
  LET fs == TLCEval(FlatAll(samples))
      uniq == Cardinality({fs[1][i].k : i \in 1..Len(fs[1])}) = Len(fs[1])
  IN
  /\ Report(x.raw[q].payload = Payload(samples), "payload", Payload(samples), x.raw[q].payload)
  /\ Report(x.raw[q].size = Len(x.raw[q].payload), "uncompressed size", Len(x.raw[q].payload), x.raw[q].size)
  /\ Either(LAMBDA kn : MetricList(fs, kn), x.mets[q], "metrics of a chunk")
  /\ Report(x.sizes[q] = Len(samples), "points of a chunk", Len(samples), x.sizes[q])
  /\ Either(LAMBDA kn : MatrixDoc(fs, kn), x.matrix[q], "matrix view")
  /\ uniq => Either(LAMBDA kn : AsSet(SeriesDoc(fs, kn)), AsSet(x.series[q]), "series view")
  /\ \A j \in 1..Len(samples) :
       /\ Either(LAMBDA kn : FlatDoc(fs, j, kn), x.flat[base + j], "flattened view")
       /\ Either(LAMBDA kn : FlatDoc(fs, j, kn), x.cflat[q][j], "flattened view of a chunk")
       /\ Either(LAMBDA kn : StructDoc(samples, j, kn), x.struct[base + j], "structured view")
       /\ Either(LAMBDA kn : StructDoc(samples, j, kn), x.cstruct[q][j], "structured view of a chunk")
Check(x) ==
  LET parts == Parts(x.samples, x.cap)
      n == Len(parts)
  IN  /\ Report(x.err = "", "error", "", x.err)
      /\ x.err = "" =>
         /\ Report(Len(x.raw) = n /\ Len(x.mets) = n /\ Len(x.sizes) = n /\ Len(x.matrix) = n /\ Len(x.series) = n /\ Len(x.cflat) = n /\ Len(x.cstruct) = n,
                   "number of chunks", n, << Len(x.raw), Len(x.mets), Len(x.matrix), Len(x.series) >>)
         /\ Report(Len(x.flat) = Len(x.samples) /\ Len(x.struct) = Len(x.samples), "number of samples", Len(x.samples), << Len(x.flat), Len(x.struct) >>)
         /\ Report(x.rawmeta = x.meta /\ x.rmeta = x.meta, "metadata", x.meta, << x.rawmeta, x.rmeta >>)
         /\ (n > 0 => \A q \in 1..Len(x.imeta) : Report(x.imeta[q] = x.meta, "metadata of an iterator", x.meta, x.imeta[q]))
         /\ (Len(x.raw) = n /\ Len(x.mets) = n /\ Len(x.sizes) = n /\ Len(x.matrix) = n /\ Len(x.series) = n /\ Len(x.cflat) = n /\ Len(x.cstruct) = n /\ Len(x.flat) = Len(x.samples) /\ Len(x.struct) = Len(x.samples)) =>
              \A q \in 1..n :
                 /\ Report(Len(x.cflat[q]) = Len(parts[q]) /\ Len(x.cstruct[q]) = Len(parts[q]), "samples of a chunk", Len(parts[q]), Len(x.cflat[q]))
                 /\ (Len(x.cflat[q]) = Len(parts[q]) /\ Len(x.cstruct[q]) = Len(parts[q])) => CheckChunk(x, parts[q], q, x.cap * (q - 1))
Init == c \in 1..Len(Cases) /\ l = 0
Next == l = 0 /\ l' = 1 /\ Check(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
