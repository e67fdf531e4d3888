---------------------------- MODULE TraceListDoc ----------------------------
(* Recorded histories of list documents are behaviours of ListDoc.tla, and   *)
(* every view shows the state.                                               *)
EXTENDS ListDoc, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, d
vars == << c, i, d >>
Report(ok, what, exp, got) ==
  IF ok THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([case |-> c, what |-> what, exp |-> exp, got |-> got]))
Steps == Cases[c].steps
Init == c \in 1..Len(Cases) /\ i = 1 /\ d = <<>>
Result(x) == [d |-> x.fwd, ok |-> x.panic = "", e |-> x.res]
Next ==
  /\ i <= Len(Steps)
  /\ LET x == Steps[i]
         want == DoList(d, x.op)
     IN  /\ Report(Result(x) \in want, x.op.n, want, Result(x))
         /\ Result(x) \in want
         /\ Report(x.bwd = Reverse(x.fwd), "backwards", Reverse(x.fwd), x.bwd)
         /\ Report(x.len = Len(x.fwd), "length", Len(x.fwd), x.len)
         /\ Report(x.verr = "" /\ x.size = SizeOf(x.fwd), "size", SizeOf(x.fwd), << x.size, x.verr >>)
         /\ Report(x.self, "the list is not returned", TRUE, x.self)
         /\ d' = x.fwd
  /\ i' = i + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
