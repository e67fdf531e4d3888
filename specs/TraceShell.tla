------------------------------ MODULE TraceShell -----------------------------
EXTENDS Shell, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
vars == << c, l >>
Report(ok, what, exp, got) ==
  IF ok THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([case |-> c, what |-> what, exp |-> exp, got |-> got]))
Conv(x) ==
  /\ Report(x.o.panic = "" /\ x.o.err = "", "error converting", "", x.o)
  /\ x.o.err = "" => Report(x.o.b = Encode(IF x.req THEN Request(x.t, x.doc) ELSE Response(x.t, x.doc)), "message of a document",
                            Encode(IF x.req THEN Request(x.t, x.doc) ELSE Response(x.t, x.doc)), x.o.b)
Extract(x) ==
  LET p == Parse(x.b) IN
  (p.v # "err" /\ x.o.parsed) =>
    /\ Report(x.o.panic = "", "panic", "", x.o.panic)
    /\ Report(SameDocs(x.o.req, RequestDoc(p.m)), "document of a request", RequestDoc(p.m), x.o.req)
    /\ Report(SameDocs(x.o.resp, ResponseDoc(p.m)), "document of a response", ResponseDoc(p.m), x.o.resp)
Outcome(x) ==
  LET w == ReadOutcome(x.doc) IN
  /\ Report(x.o.panic = "", "panic reading an outcome", "", x.o.panic)
  /\ x.o.panic = "" =>
       /\ Report(w.valid = (x.o.err = ""), "acceptance of an outcome", w, x.o)
       /\ w.valid => /\ Report(x.o.ok = w.ok /\ x.o.msg = w.msg, "outcome", w, x.o)
                     /\ Report((x.o.failure = <<>>) = Succeeds(w.ok, w.msg), "success", Succeeds(w.ok, w.msg), x.o)
                     /\ w.msg # <<>> => Report(x.o.failure = << w.msg >>, "error message", w.msg, x.o.failure)
Make(x) ==
  LET ok == x.ok
      msg == IF x.fails THEN x.msg ELSE <<>>
      want == IF x.fn = "raw" THEN x.doc ELSE IF x.fn = "ok" THEN OutcomeDoc(TRUE, <<>>) ELSE IF x.fn = "notok" THEN OutcomeDoc(FALSE, <<>>)
              ELSE IF x.fn = "error" THEN OutcomeDoc(FALSE, x.msg) ELSE OutcomeDoc(ok, msg)
      out == Encode(Response(x.t, want))
  IN  /\ Report(x.o.panic = "", "panic writing", "", x.o.panic)
      /\ x.fn = "make" => Report(x.o.doc = want, "document of an outcome", want, x.o.doc)
      /\ (x.fn # "make" /\ (x.fail < 0 \/ x.fail >= Len(out))) => Report(x.o.err = "" /\ x.o.out = out, "response written", out, x.o)
      /\ (x.fn # "make" /\ x.fail >= 0 /\ x.fail < Len(out)) => Report(x.o.err # "" /\ x.o.out = SubSeq(out, 1, x.fail), "failure to write a response", out, x.o)
RECURSIVE Talk(_, _)
Talk(x, i) ==
  IF i > Len(x.reqs) THEN Report(Len(x.o.answers) = Len(x.reqs) /\ ~x.o.shut, "answers", Len(x.reqs), x.o)
  ELSE LET known == Fields(ScopeOf(Parse(x.reqs[i]).m).cmd, x.o.addr)[1] IN
       IF ~known THEN Report(Len(x.o.answers) = i - 1 /\ x.o.shut, "answers until an unknown command", i - 1, x.o)
       ELSE IF Len(x.o.answers) < i THEN Report(FALSE, "no answer", x.reqs[i], x.o)
       ELSE Report(Answers(x.reqs[i], x.o.answers[i], x.o.addr), "answer", x.reqs[i], x.o.answers[i]) /\ Talk(x, i + 1)
Check(x) ==
  CASE x.k = "conv" -> Conv(x)
    [] x.k = "extract" -> Extract(x)
    [] x.k = "outcome" -> Outcome(x)
    [] x.k = "make" -> Make(x)
    [] x.k = "talk" -> Talk(x, 1)
Init == c \in 1..Len(Cases) /\ l = 0
Next == l = 0 /\ l' = 1 /\ Check(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
