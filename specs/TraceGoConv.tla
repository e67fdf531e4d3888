---------------------------- MODULE TraceGoConv -----------------------------
(* Recorded conversions of Go values to BSON and back.                       *)
EXTENDS GoConv, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
vars == << c, l >>
Report(ok, what, exp, got) ==
  IF ok THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([case |-> c, what |-> what, exp |-> exp, got |-> got]))
\* obs: [f, kind ("lenient"/"strict"), r ("ok"/"error"/"panic"), v, msg]
CheckConv(x) ==
  \A i \in 1..Len(x.obs) :
    LET o == x.obs[i] IN
    CASE o.r = "panic" -> Report(FALSE, "panic in " \o o.f, x.g, o.msg)
      [] o.kind = "lenient" -> Report(Represents(o.v, x.g), "result of " \o o.f, x.g, o.v)
      [] o.kind = "strict" -> /\ Report((o.r = "ok") = Convertible(x.g), "outcome of " \o o.f, Convertible(x.g), o.r)
                              /\ (o.r = "ok" /\ Convertible(x.g)) => Report(Represents(o.v, x.g), "result of " \o o.f, x.g, o.v)
CheckExport(x) ==
  /\ Report(x.err = "", "failure", "", x.err)
  /\ x.err = "" =>
      /\ Report(SameG(x.got, Export(x.v)), "exported", Export(x.v), x.got)
      /\ \A i \in 1..Len(x.maps) : Report(SameG(x.maps[i].m, G("map", <<>>, <<>>, ExportMap(x.doc))), x.maps[i].f, ExportMap(x.doc), x.maps[i].m)
      \* string maps take the string elements only; the last one with a key wins
      /\ LET ss == SelectSeq(x.doc, LAMBDA e : e.v.t = 2)
         IN Report(SameG(x.ss, G("map", <<>>, <<>>, ExportMap(ss))), "string map", ExportMap(ss), x.ss)
Check(x) == CASE x.op = "conv" -> CheckConv(x) [] x.op = "export" -> CheckExport(x)
Init == c \in 1..Len(Cases) /\ l = 0
Next == l = 0 /\ l' = 1 /\ Check(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
