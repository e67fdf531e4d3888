----------------------------- MODULE TraceValue -----------------------------
(* Recorded accessor calls, comparisons and copy histories of real values.   *)
EXTENDS ValueOps, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
vars == << c, l >>
Report(ok, what, exp, got) ==
  IF ok THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([case |-> c, what |-> what, exp |-> exp, got |-> got]))
\* acc: per accessor [a, ok, p (panicking form panicked), v, pv]
CheckAcc(x) ==
  \A i \in 1..Len(x.reps) :
    LET rep == x.reps[i] IN
    /\ Report(rep.err = "", "failure in representation " \o rep.name, "", rep.err)
    /\ rep.err = "" =>
       /\ Report(rep.type = x.v.t, "type in " \o rep.name, x.v.t, rep.type)
       /\ Report(rep.bytes = EncElem(x.k, x.v), "bytes in " \o rep.name, EncElem(x.k, x.v), rep.bytes)
       /\ Report(rep.key = x.k, "key in " \o rep.name, x.k, rep.key)
       /\ \A j \in 1..Len(rep.acc) :
            LET o == rep.acc[j]
                applies == x.v.t \in AccTypes(o.a)
            IN /\ Report(o.ok = applies, o.a \o "OK in " \o rep.name, applies, o.ok)
               /\ Report(o.p = ~applies, o.a \o " panics in " \o rep.name, ~applies, o.p)
               /\ (applies /\ o.ok /\ ~o.p) =>
                     /\ Report(NormV(o.v) = NormV(AccResult(o.a, x.v)), o.a \o "OK value in " \o rep.name, AccResult(o.a, x.v), o.v)
                     /\ Report(NormV(o.pv) = NormV(AccResult(o.a, x.v)), o.a \o " value in " \o rep.name, AccResult(o.a, x.v), o.pv)
CheckEq(x) ==
  /\ Report(x.err = "", "failure", "", x.err)
  /\ x.err = "" => \A i \in 1..Len(x.eqs) :
       LET q == x.eqs[i] IN Report(q.r = (EqV(x.v, x.w) /\ (q.keys => x.kv = x.kw)), "equality " \o q.name, EqV(x.v, x.w), q.r)
RECURSIVE Run(_, _)
Run(s, ops) == IF ops = <<>> THEN s ELSE Run(Do(s, ops[1]), Tail(ops))
CheckHist(x) ==
  LET s == Run(<< x.v, x.v >>, x.ops)
  IN /\ Report(x.err = "", "failure", "", x.err)
     /\ x.err = "" =>
         /\ Report(NormV(x.a) = NormV(s[1]), "first value", s[1], x.a)
         /\ Report(NormV(x.b) = NormV(s[2]), "second value", s[2], x.b)
         /\ Report(x.ea = EncElem(<<97>>, s[1]), "first value written", EncElem(<<97>>, s[1]), x.ea)
         /\ Report(x.eb = EncElem(<<97>>, s[2]), "second value written", EncElem(<<97>>, s[2]), x.eb)
         /\ Report(x.eq = EqV(s[1], s[2]), "equality", EqV(s[1], s[2]), x.eq)
Check(x) == CASE x.op = "acc" -> CheckAcc(x) [] x.op = "eq" -> CheckEq(x) [] x.op = "hist" -> CheckHist(x)
Init == c \in 1..Len(Cases) /\ l = 0
Next == l = 0 /\ l' = 1 /\ Check(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
