---------------------------- MODULE TraceFTDCColl ---------------------------
(* Recorded histories of real collectors.                                   *)
EXTENDS FTDCColl, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, st
vars == << c, l, st >>
Report(ok, what, exp, got) ==
  IF ok THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([case |-> c, at |-> l, what |-> what, exp |-> exp, got |-> got]))
Init == c \in 1..Len(Cases) /\ l = 0 /\ st = New("none", 0)
Next == /\ l < Len(Cases[c])
        /\ LET x == Cases[c][l + 1]
               r == CDo(st, x.op)
               v == CView(r.st)
               kind == r.st.k
           IN /\ Report(x.r.ok = r.ok, "outcome of " \o x.op.n \o " on " \o kind, r.ok, x.r)
              /\ Report(x.r.w = r.w, "written to the stream by " \o x.op.n \o " on " \o kind, r.w, x.r.w)
              /\ Report(x.r.r = r.r, "returned by " \o x.op.n \o " on " \o kind, r.r, x.r.r)
              /\ Report(x.v.n = v.n, "number of samples after " \o x.op.n \o " on " \o kind, v.n, x.v.n)
              /\ Report(x.v.mc = v.mc, "number of metrics after " \o x.op.n \o " on " \o kind, v.mc, x.v.mc)
              /\ (x.peek => Report(x.v.res = v.res, "resolved after " \o x.op.n \o " on " \o kind, v.res, x.v.res))
              /\ st' = r.st
        /\ l' = l + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
