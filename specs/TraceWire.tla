------------------------------ MODULE TraceWire ------------------------------
EXTENDS Wire, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
vars == << c, l >>
Report(ok, what, exp, got) ==
  IF ok THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([case |-> c, what |-> what, exp |-> exp, got |-> got]))

\* what is observed of a message that has to be m
Observed(o, m, built) ==
  /\ Report(o.op = m.op /\ o.rid = m.rid /\ o.rto = m.rto, "header", [op |-> m.op, rid |-> m.rid, rto |-> m.rto], [op |-> o.op, rid |-> o.rid, rto |-> o.rto])
  /\ Report(o.scope = ScopeOf(m), "scope", ScopeOf(m), o.scope)
  /\ (m.op # OPMSG \/ m.f = Zero4) => Report(o.resp = Responds(m), "whether a response is expected", Responds(m), o.resp)
  /\ Report(SameModel(ModelOf(m), o.model), "model", ModelOf(m), o.model)
  /\ Report(o.again, "serializing twice", TRUE, FALSE)
  /\ m.op = OPMSG => Report(o.f = m.f /\ o.sum = m.sum, "flags and checksum", [f |-> m.f, sum |-> m.sum], [f |-> o.f, sum |-> o.sum])
  /\ ~m.up =>
       LET x == Parse(o.ser) IN
       /\ Report(o.size = Len(o.ser) /\ Len(o.ser) >= 16 /\ I32(o.ser, 1) = Len(o.ser), "size", Len(o.ser), o.size)
       /\ built => Report(o.ser = Encode(m), "bytes", Encode(m), o.ser)
       /\ ~built => Report(o.ser = Encode(m) \/ (x.v = "ok" /\ SameMsg(x.m, m)), "bytes", Encode(m), o.ser)

CheckParse(o, x, size) ==
  /\ Report(o.panic = "", "panic", "", o.panic)
  /\ o.panic = "" =>
       /\ Report(x.v = "any" \/ (x.v = "ok") = (o.err = ""), "acceptance", x, o.err)
       /\ (o.err = "" /\ x.v # "err") =>
            /\ Observed(o.obs, x.m, FALSE)
            /\ (~x.m.up /\ x.v = "ok") => Report(o.obs.size0 = size, "size in the header", size, o.obs.size0)

Buildable(m) == /\ m.op = INSERT => m.f = Zero4
                /\ m.op = OPMSG => \A i, j \in 1..Len(m.secs) : i < j => m.secs[i].k <= m.secs[j].k
Own(m) == [m EXCEPT !.rid = << 19, 0, 0, 0 >>, !.rto = Zero4]
Build(x) ==
  /\ Report(x.built.panic = "", "panic building", "", x.built.panic)
  /\ (x.built.panic = "" /\ Buildable(x.m)) => Observed(x.built.obs, Own(x.m), TRUE)

\* successive reads
RECURSIVE Reads(_, _, _, _)
Reads(b, p, os, i) ==
  IF i > Len(os) THEN TRUE
  ELSE LET o == os[i]
           x == ReadAt(b, p)
       IN  /\ Report(o.panic = "", "panic reading", "", o.panic)
           /\ Report(~o.mem, "memory for a message that is not there", FALSE, o.mem)
           /\ o.panic = "" =>
              CASE x.r = "end" -> Report(o.err # "" /\ o.eof, "end of the stream", "EOF", o.err)
                [] x.r = "cut" -> Report(o.err # "" /\ ~o.eof, "truncated stream", "an error that is not EOF", o.err)
                [] x.r = "size" -> Report(o.err # "" /\ ~o.eof, "size of a message", "an error", o.err)
                [] OTHER ->
                   /\ Report(o.pos = x.p - 1, "bytes read", x.p - 1, o.pos)
                   /\ Report(x.r = "any" \/ (x.r = "ok") = (o.err = ""), "acceptance in a stream", x.r, o.err)
                   /\ Report(o.err = "" \/ ~o.eof, "malformed message looks like the end", "an error", o.err)
                   /\ (o.err = "" /\ x.r # "err") => Observed(o.obs, x.m, FALSE)
                   /\ (o.pos = x.p - 1) => Reads(b, x.p, os, i + 1)
Send(x) ==
  LET want == Encode(Own(x.m)) IN
  /\ Report(x.o.panic = "", "panic sending", "", x.o.panic)
  /\ IF x.fail >= 0 /\ x.fail < Len(want)
     THEN /\ Report(x.o.err # "", "failing output is not reported", "error", x.o.err)
          /\ Report(x.o.out = SubSeq(want, 1, x.fail), "bytes sent before the failure", want, x.o.out)
     ELSE /\ Report(x.o.err = "", "error sending", "", x.o.err)
          /\ Report(x.o.out = want, "bytes sent", want, x.o.out)
  /\ Report(x.o.canceled # "", "sending with a canceled context", "error", x.o.canceled)
Cancel(x) ==
  /\ Report(x.o.panic = "", "panic canceling", "", x.o.panic)
  /\ Report(~x.o.late /\ x.o.err # "", "reading does not end when the context is canceled", "error", x.o)
  /\ Report(~x.o.slate /\ x.o.serr # "", "sending does not end when the context is canceled", "error", x.o)
Check(x) ==
  CASE x.k = "build" -> Build(x) /\ CheckParse(x.parse, Parse(x.b), Len(x.b))
    [] x.k = "parse" -> CheckParse(x.parse, Parse(x.b), Len(x.b))
    [] x.k = "stream" -> Reads(x.b, 1, x.reads, 1)
    [] x.k = "send" -> Send(x)
    [] x.k = "cancel" -> Cancel(x)
Init == c \in 1..Len(Cases) /\ l = 0
Next == l = 0 /\ l' = 1 /\ Check(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
