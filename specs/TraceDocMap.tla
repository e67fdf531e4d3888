----------------------------- MODULE TraceDocMap -----------------------------
(* Recorded histories of document maps are behaviours of DocMap.tla.         *)
EXTENDS DocMap, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, S
vars == << c, i, S >>
Report(ok, what, exp, got) ==
  IF ok THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([case |-> c, what |-> what, exp |-> exp, got |-> got]))
Steps == Cases[c].steps
Init == c \in 1..Len(Cases) /\ i = 1 /\ S = Empty
\* what was observed: the document, and the maps as sequences
Seen(x) == [d |-> x.d, ms |-> [j \in 1..Len(x.ms) |-> ToSet(x.ms[j])]]
Next ==
  /\ i <= Len(Steps)
  /\ LET x == Steps[i]
         op == x.op
         see == Seen(x)
         es == IF op.n = "UnmarshalDocument" THEN op.e ELSE IF op.n = "UnmarshalBSON" /\ WellFormed(op.b) THEN Norm(Decode(op.b).r) ELSE <<>>
         bad == op.n = "UnmarshalBSON" /\ ~WellFormed(op.b)
     IN  /\ Report(x.panic = "", "panic in " \o op.n, "", x.panic)
         /\ x.panic = ""
         \* what is nested may be checked later (then it is not seen), the rest not
         /\ Report(x.view = "" \/ bad, "not seen after " \o op.n, "", x.view)
         /\ (bad /\ x.ok => Report(Len(op.b) >= 5 /\ (LET l == I32(op.b, 1) IN l >= 5 /\ l <= Len(op.b) /\ op.b[l] = 0), "cut bytes accepted", "", op.b))
         /\ x.view = "" /\ ~(bad /\ x.ok)
         /\ Report(x.same, "elements are not shared", TRUE, x.same)
         /\ IF op.n \in Reads
            THEN /\ Report(x.ok = ~bad, "refused", "", op)
                 /\ Report(see.d = S.d /\ Len(see.ms) = Len(S.ms) /\ \A j \in 1..Len(S.ms) : j = op.m \/ see.ms[j] = S.ms[j],
                           "reading changes something else", S, see)
                 /\ (~bad => Report(MayRead(S.ms[op.m], es, see.ms[op.m]), op.n, << S.ms[op.m], es >>, see.ms[op.m]))
            ELSE /\ Report(see = DoMap(S, op), op.n, DoMap(S, op), see)
                 /\ see = DoMap(S, op)
                 /\ (op.n \in Writes => LET m == S.ms[op.m] IN
                      /\ Report(x.ok = ValidMap(m), op.n \o ": validity", ValidMap(m), x.ok)
                      /\ (x.ok /\ op.n # "Validate" => Report(IsWritten(m, x.res), op.n, m, x.res)))
         /\ S' = see
  /\ i' = i + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
