------------------------------ MODULE TraceCSV ------------------------------
EXTENDS CSV, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
vars == << c, l >>
Report(ok, what, exp, got) ==
  IF ok THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([case |-> c, what |-> what, exp |-> exp, got |-> got]))
SameV(a, b) == a = b \/ (a.t = 1 /\ b.t = 1 /\ IsNaN(a.s) /\ IsNaN(b.s))
SameDocs(a, b) == /\ Len(a) = Len(b)
                  /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i]) /\ \A j \in 1..Len(a[i]) : a[i][j].k = b[i][j].k /\ SameV(a[i][j].v, b[i][j].v)
Sum(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
Convert(x) ==
  LET r == TLCEval(FromCSV(x.b, x.fl))
      o == x.o
  IN  /\ Report(o.panic = "", "panic converting", "", o.panic)
      /\ Report(r.ok = (o.err = ""), "error converting", r.ok, o.err)
      /\ Report(o.rerr = "", "the output does not read back", "", o.rerr)
      /\ Report(SameDocs(r.docs, o.docs), "samples converted", r.docs, o.docs)
      /\ Report(\A i \in 1..Len(o.sizes) : o.sizes[i] <= x.bucket, "size of a chunk", x.bucket, o.sizes)
      /\ Report(~o.short \/ o.serr # "", "failing output is not reported", "error", o.serr)
Write(x) ==
  LET cs == TLCEval([q \in 1..Len(x.chunks) |-> FlatAll(x.chunks[q])])
      w  == ToCSV(cs, FALSE)
      d  == ToCSV(cs, TRUE)
      o  == x.o
  IN  /\ Report(o.panic = "", "panic writing", "", o.panic)
      /\ Report(w.ok = (o.err = ""), "error of WriteCSV", w.ok, o.err)
      /\ Report(FileOK(x.fl, cs, IF w.files = <<>> THEN <<>> ELSE w.files[1], o.text), "text of WriteCSV", w.files, o.text)
      /\ Report(~o.short \/ o.serr # "", "failing output is not reported", "error", o.serr)
      /\ Report(o.derr = "", "error of DumpCSV", "", o.derr)
      /\ Report(Len(d.files) = Len(o.files), "files of DumpCSV", Len(d.files), Len(o.files))
      /\ (Len(d.files) = Len(o.files)) => \A i \in 1..Len(o.files) : Report(FileOK(x.fl, cs, d.files[i], o.files[i]), "text of DumpCSV", d.files[i], o.files[i])
      /\ Report(o.files = <<>> \/ o.files[1] = <<>> \/ o.full # "", "full device of DumpCSV", "error", o.full)
      /\ Report((Len(d.files) >= 2) = (o.blocked # ""), "blocked file of DumpCSV", Len(d.files), o.blocked)
Check(x) == IF x.k = "convert" THEN Convert(x) ELSE Write(x)
Init == c \in 1..Len(Cases) /\ l = 0
Next == l = 0 /\ l' = 1 /\ Check(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
