------------------------------ MODULE TraceDoc ------------------------------
(* Recorded histories of real documents, validated step by step.            *)
EXTENDS DocOps, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, st
vars == << c, l, st >>
Report(ok, what, exp, got) ==
  IF ok THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([case |-> c, at |-> l, what |-> what, exp |-> exp, got |-> got]))
CheckObs(s, x) ==
  \A w \in {1, 2} :
    LET o == x.obs[w] IN
      /\ Report(o.err = "", "observation failed", "", o.err)
      /\ o.err = "" =>
         /\ Report(o.d = s[w], "content", s[w], o.d)
         /\ Report(o.look = KeyView(s[w], x.ku), "lookup by key", KeyView(s[w], x.ku), o.look)
         /\ Report(o.map = KeyView(s[w], x.ku), "map view", KeyView(s[w], x.ku), o.map)
         /\ Report(o.bytes = EncDoc(s[w]), "bytes", EncDoc(s[w]), o.bytes)
         /\ Report(o.len = Len(s[w]), "length", Len(s[w]), o.len)
         /\ Report(o.diff = <<>>, "views disagree", <<>>, o.diff)
Init == c \in 1..Len(Cases) /\ l = 0 /\ st = << <<>>, <<>> >>
Next == /\ l < Len(Cases[c].ev)
        /\ LET x == Cases[c].ev[l + 1]
               r == Do(st, x.op)
           IN /\ Report(x.r = r.r, "result of " \o x.op.n, r.r, x.r)
              /\ CheckObs(r.st, x)
              /\ st' = r.st
        /\ l' = l + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
