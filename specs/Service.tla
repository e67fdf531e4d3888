------------------------------- MODULE Service -------------------------------
(***************************************************************************)
(* A service: a registry of handlers for scopes, and connections whose       *)
(* messages are dispatched to them.  A registration is                       *)
(*   [t, ctx, cmd, h, do]   h: which handler (0: none), do: what it does     *)
(* ("reply", "panic", or "wait" until the service stops).                    *)
(***************************************************************************)
EXTENDS Wire

Valid(s) == CASE s.t \in {COMMAND, OPMSG} -> s.cmd # <<>>
              [] s.t \in {DELETE, UPDATE, QUERY, INSERT, GETMORE} -> s.ctx # <<>> /\ s.cmd = <<>>
              [] s.t = KILL -> s.ctx = <<>> /\ s.cmd = <<>>
              [] OTHER -> FALSE
ScopeIn(r) == [t |-> r.t, ctx |-> r.ctx, cmd |-> r.cmd]
\* what can be registered: a valid scope, a handler, and only once
Registers(reg, r) == Valid(ScopeIn(r)) /\ r.h # 0 /\ \A x \in reg : ScopeIn(x) # ScopeIn(r)
\* the handlers for a scope: the one for its context, or the one for any context
For(reg, s) == LET one == {x \in reg : ScopeIn(x) = s}
                   all == {x \in reg : ScopeIn(x) = [s EXCEPT !.ctx = <<>>]}
               IN  IF one # {} THEN one ELSE all
\* What a connection makes of the bytes sent over it: the calls, in order, and
\* how it ends: "open" (waiting for more), "shut" with an error, "cut" (shut
\* with an error once the sender stops), "open?" (left open by the protocol)
RECURSIVE Serve(_, _, _, _)
Serve(reg, b, p, calls) ==
  LET x == ReadAt(b, p) IN
  CASE x.r = "end" -> [calls |-> calls, end |-> "open"]
    [] x.r = "cut" -> [calls |-> calls, end |-> "cut"]
    [] x.r = "any" -> [calls |-> calls, end |-> "open?"]
    [] x.r \in {"size", "err"} -> [calls |-> calls, end |-> "shut"]
    [] OTHER -> LET hs == IF x.m.op \in {REPLY, CREPLY} THEN {} ELSE For(reg, ScopeOf(x.m)) IN
                IF hs = {} THEN [calls |-> calls, end |-> "shut"]
                ELSE LET h == CHOOSE h \in hs : TRUE
                     IN  Serve(reg, b, x.p, TLCEval(Append(calls, [h |-> h.h, do |-> h.do, m |-> x.m])))
Doing(calls, do) == SelectSeq(calls, LAMBDA x : x.do = do)
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) :
                   Cardinality({j \in 1..Len(a) : a[j] = a[i]}) = Cardinality({j \in 1..Len(b) : b[j] = a[i]})
=============================================================================
