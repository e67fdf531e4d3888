--------------------------- MODULE TraceJSONTree ---------------------------
(* Recorded histories of JSON trees are behaviours of JSONTree.tla.          *)
EXTENDS JSONTree, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, S
vars == << c, i, S >>
Report(ok, what, exp, got) ==
  IF ok THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([case |-> c, what |-> what, exp |-> exp, got |-> got]))
Steps == Cases[c].steps
Tab == Cases[c].tab
Init == c \in 1..Len(Cases) /\ i = 1 /\ S = Empty
\* t: the tree of a root; o: what was observed of it
CheckText(t, o) ==
  IF ~Finite(t) THEN Report(o.r = "error", "a number that is not finite is written", "error", o)
  ELSE /\ Report(o.r = "ok", "writing", "ok", o)
       /\ o.r = "ok" => LET p == ParseJSON(o.b) IN
             Report(p.ok /\ ValidUtf8(o.b, 1) /\ SameTree(t, p.r, Tab), "text", t, o.b)
CheckConv(t, o) ==
  IF ~Finite(t) THEN Report(o.r # "panic", "panic when converted", "", o.msg)
  ELSE LET m == IF t.j = "obj" THEN MeanSeq(t.e, Tab) ELSE Mean(t, Tab) IN
       CASE m.c = "err" -> Report(o.r = "error", "converted", "error", o)
         [] m.c = "val" -> /\ Report(o.r = "ok", "converting", "ok", o)
                           /\ o.r = "ok" => Report(SameVal(m.v, o.m), "document", m.v, o.m)
         [] OTHER -> Report(o.r # "panic", "panic when converted", "", o.msg)
Next ==
  /\ i <= Len(Steps)
  /\ LET x == Steps[i] IN
     /\ Report(x.panic = "", "panic in " \o x.op.n, "", x.panic)
     /\ x.panic = ""
     /\ Report(Possible(S, x.op), "the tree has other parts", "", x.op)
     /\ Possible(S, x.op)
     /\ LET want == DoTree(S, x.op)
            ts == Roots(want)
        IN  /\ Report(Len(x.roots) = Len(ts), "harness", Len(ts), Len(x.roots))
            /\ \A k \in 1..Len(ts) : LET o == x.roots[k] IN
                 /\ Report(SameTree(ts[k], o.t, Tab), "tree", ts[k], o.t)
                 /\ Report(o.acc = Accessors(ts[k]), "accessors", Accessors(ts[k]), o.acc)
                 /\ CheckText(ts[k], o.text)
                 /\ (o.conv.r # "none" => CheckConv(ts[k], o.conv))
            /\ S' = want
  /\ i' = i + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
