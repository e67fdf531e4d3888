----------------------------- MODULE TraceJSON ------------------------------
EXTENDS ExtJSON, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
vars == << c, l >>
Report(ok, what, exp, got) ==
  IF ok THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([case |-> c, what |-> what, exp |-> exp, got |-> got]))

\* a document/array/value written as JSON by several entry points and read back
CheckMarshal(x) ==
  IF ~(CASE x.kind = "doc" -> ExprSeq(x.v.e, FALSE) [] OTHER -> Expressible(x.v)) THEN
       \A i \in 1..Len(x.obs) : Report(x.obs[i].r # "panic", "panic in " \o x.obs[i].f, "no panic", x.obs[i].msg)
  ELSE \A i \in 1..Len(x.obs) :
    LET o == x.obs[i] IN
    IF o.r # "ok" THEN Report(FALSE, "outcome of " \o o.f, "ok", o.msg)
    ELSE IF o.kind = "text" THEN
      LET p == ParseJSON(o.b) IN
      /\ Report(p.ok /\ ValidUtf8(o.b, 1), "not JSON: " \o o.f, "JSON", o.b)
      /\ p.ok => LET m == IF x.kind = "doc" /\ p.r.j = "obj" THEN MeanSeq(p.r.e, x.tab) ELSE Mean(p.r, x.tab)
                 IN  Report(m.c = "val" /\ SameVal(m.v, x.v), "meaning of " \o o.f, x.v, o.b)
    ELSE Report(SameVal(Lift(o.m), x.v), "read back by " \o o.f, x.v, o.m)

Expected(x, p, kind) ==
  CASE ~p.ok -> Err
    [] kind = "doc" -> IF p.r.j = "obj" THEN MeanSeq(p.r.e, x.tab) ELSE Err
    [] kind = "arr" -> IF p.r.j = "arr" THEN Mean(p.r, x.tab) ELSE Err
    [] OTHER -> Mean(p.r, x.tab)
\* does some number token in the tree overflow?
RECURSIVE BadNum(_, _)
BadNum(t, tab) == (t.j = "num" /\ NumVal(t.s, tab).c = "err") \/ \E i \in 1..Len(t.e) : BadNum(t.e[i].v, tab)

CheckText(x) ==
  LET p == ParseJSON(x.b)
      loose == p.ok /\ (Lone(p.r) \/ ~ValidUtf8(x.b, 1))
  IN  \A i \in 1..Len(x.obs) :
    LET o == x.obs[i] IN
    IF o.r = "panic" THEN Report(FALSE, "panic in " \o o.f, "no panic", o.msg)
    ELSE IF o.kind = "broken" THEN Report(o.r = "error", "a reader that fails is taken for a whole text by " \o o.f, "error", o.r)
    ELSE IF loose THEN TRUE
    ELSE CASE o.kind \in {"doc", "arr", "val"} ->
           LET m == Expected(x, p, o.kind) IN
           CASE m.c = "err" -> Report(o.r = "error", "accepted by " \o o.f, "error", o.r)
             [] m.c = "val" -> /\ Report(o.r = "ok", "outcome of " \o o.f, "ok", o.msg)
                               /\ o.r = "ok" => Report(SameVal(m.v, o.m), "content from " \o o.f, m.v, o.m)
             [] OTHER -> TRUE
         [] o.kind \in {"xdoc", "xarr", "xval"} ->      \* plain JSON trees
           LET good == p.ok /\ (o.kind = "xdoc" => p.r.j = "obj") /\ (o.kind = "xarr" => p.r.j = "arr") /\ ~BadNum(p.r, x.tab)
           IN  /\ Report((o.r = "ok") = good, "outcome of " \o o.f, good, o.r)
               /\ (good /\ o.r = "ok") => Report(SameTree(p.r, o.t, x.tab), "tree from " \o o.f, p.r, o.t)
         [] o.kind = "xtext" ->
           (o.r = "ok" /\ p.ok) => LET q == ParseJSON(o.b) IN
                       /\ Report(q.ok, "not JSON: " \o o.f, "JSON", o.b)
                       /\ q.ok => Report(SameTree(p.r, q.r, x.tab), "rewritten by " \o o.f, p.r, o.b)

Check(x) == CASE x.op = "marshal" -> CheckMarshal(x) [] x.op = "text" -> CheckText(x)
Init == c \in 1..Len(Cases) /\ l = 0
Next == l = 0 /\ l' = 1 /\ Check(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
