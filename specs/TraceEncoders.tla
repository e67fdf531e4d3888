--------------------------- MODULE TraceEncoders ---------------------------
(* Recorded calls of the low-level encoders are steps of Encoders.tla.       *)
EXTENDS Encoders, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
vars == << c, l >>
Report(ok, what, exp, got) ==
  IF ok THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([case |-> c, what |-> what, exp |-> exp, got |-> got]))
Check(x) ==
  LET w == Wanted(x)
      got == [n |-> x.n, ok |-> x.err = "", out |-> x.out]
  IN  /\ Report(x.panic = "", "panic", "", x.panic)
      /\ x.panic = "" =>
           /\ Report(got \in Put(x.buf, x.start, w), "what is written", w, got)
           /\ Report(x.rest, "bytes after the end of the buffer are written", "", "")
           /\ Report(x.kept, "the input is changed", "", "")
Init == c \in 1..Len(Cases) /\ l = 0
Next == l = 0 /\ l' = 1 /\ Check(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
