------------------------------ MODULE TraceBSON ------------------------------
(* Validates recorded calls of the real codec against BSON.tla.             *)
EXTENDS BSON, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
vars == << c, l >>

Report(ok, what, exp, got) ==
  IF ok THEN TRUE
  ELSE PrintT("MISMATCH " \o ToJson([case |-> c, what |-> what, exp |-> exp, got |-> got]))

CheckCodec(x) ==
  LET want == EncDoc(x.doc)
  IN  /\ Report(x.err = "", "error", "", x.err)
      /\ x.err = "" =>
          /\ Report(x.bytes = want, "bytes", want, x.bytes)
          /\ Report(x.dec = x.doc, "decoded", x.doc, x.dec)
          /\ Report(x.rdec = x.doc, "decoded by reader", x.doc, x.rdec)
          /\ Report(x.size = Len(want), "size", Len(want), x.size)
          /\ Report(x.diff = <<>>, "entry points disagree", <<>>, x.diff)

CheckBytes(x) ==
  LET d == Decode(x.bytes)
  IN  \A i \in 1..Len(x.obs) :
        LET o == x.obs[i]
        IN  CASE o.r = "panic" -> Report(FALSE, "panic in " \o o.f, "no panic", o.msg)
              [] o.kind = "deep" ->
                   /\ Report((o.r = "ok") = d.ok, "acceptance by " \o o.f, d.ok, o.r)
                   /\ (d.ok /\ o.r = "ok" /\ o.n >= 0) => Report(o.n = d.n, "size from " \o o.f, d.n, o.n)
              [] o.kind = "shallow" ->   \* may defer nested checks, must accept the well-formed
                   d.ok => Report(o.r = "ok", "acceptance by " \o o.f, "ok", o.r)
              [] o.kind = "content" ->
                   d.ok => /\ Report(o.r = "ok", "acceptance by " \o o.f, "ok", o.r)
                           /\ o.r = "ok" => Report(Norm(o.e) = Norm(d.r), "content from " \o o.f, d.r, o.e)
              [] o.kind = "rewrite" ->   \* read then written again
                   /\ o.r = "ok" => /\ Report(d.ok, "malformed input written by " \o o.f, "error", o.b)
                                    /\ d.ok => Report(/\ Decode(o.b).ok /\ Decode(o.b).n = Len(o.b)
                                                    /\ Norm(Decode(o.b).r) = Norm(d.r)
                                                    /\ EncDoc(Norm(d.r)) = SubSeq(x.bytes, 1, d.n) => o.b = EncDoc(Norm(d.r)),
                                                    "rewritten by " \o o.f, EncDoc(Norm(d.r)), o.b)
                   /\ d.ok => Report(o.r = "ok", "rewriting by " \o o.f, "ok", o.r)
              [] OTHER -> TRUE

Check(x) == CASE x.op = "codec" -> CheckCodec(x)
              [] x.op = "bytes" -> CheckBytes(x)

Init == c \in 1..Len(Cases) /\ l = 0
Next == l = 0 /\ l' = 1 /\ Check(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
