---------------------------- MODULE EventsModel -----------------------------
(* Every short history of every event collector, with the laws of summing,   *)
(* and every small document near that of an event.                           *)
EXTENDS Events, Json
CONSTANTS MaxOps, Kinds, Docs
VARIABLES st, h, outs, evs
vars == << st, h, outs, evs >>

N8(n) == << n, 0, 0, 0, 0, 0, 0, 0 >>
Neg8(n) == << 256 - n, 255, 255, 255, 255, 255, 255, 255 >>
Ev(ts, id, n, dur, state, failed) ==
  [ZeroEvent EXCEPT !.ts = ts, !.id = id, !.n = n, !.ops = Add64(n, n), !.size = One8, !.dur = dur, !.total = dur, !.state = state, !.failed = failed]
Palette == { Ev(N8(5), Zero8, One8, N8(7), N8(2), FALSE), Ev(N8(3), N8(9), Neg8(1), N8(1), Zero8, TRUE),
             Ev(Zero8, Zero8, << 255, 255, 255, 255, 255, 255, 255, 127 >>, Zero8, N8(1), FALSE) }
KindsAll == { << "basic", 0 >>, << "pass", 0 >>, << "sample", 1 >>, << "sample", 2 >>, << "sample", 3 >>,
              << "random", 0 >>, << "random", 200 >>, << "interval", 0 >>, << "interval", 1000000000 >> }
KindsQuick == { << "basic", 0 >>, << "pass", 0 >>, << "sample", 2 >>, << "interval", 1000000000 >>, << "random", 200 >> }

Init == \E k \in Kinds : st = InitColl(k[1], k[2]) /\ h = <<>> /\ outs = <<>> /\ evs = <<>>
Add(e, fail) ==
  LET w == Writes(st, Len(h), Len(h))
      wrote == w = "yes"
  IN  /\ h' = Append(h, [op |-> "add", e |-> e, fail |-> fail])
      /\ evs' = Append(evs, e)
      /\ st' = AfterEvent(st, e, wrote, Len(h), Len(h))
      /\ outs' = IF wrote /\ ~fail THEN Append(outs, Sum(st, e)) ELSE outs
Other(op) == h' = Append(h, [op |-> op, e |-> ZeroEvent, fail |-> FALSE]) /\ UNCHANGED << st, evs, outs >>
Next == /\ Len(h) < MaxOps
        /\ \/ \E e \in Palette, f \in BOOLEAN : Add(e, f)
           \/ \E op \in {"nil", "any", "info"} : Other(op)
Spec == Init /\ [][Next]_vars

(***** laws *******************************************************************)
SumN == FoldLeft(LAMBDA a, e : Add64(a, e.n), Zero8, evs)
SumOps == FoldLeft(LAMBDA a, e : Add64(a, e.ops), Zero8, evs)
\* whatever was written, the sum covers every event so far, and the gauges are those of the last one
Laws == evs # <<>> /\ st.kind # "pass" =>
          /\ st.cur[1].n = SumN /\ st.cur[1].ops = SumOps
          /\ st.cur[1].state = evs[Len(evs)].state /\ st.cur[1].ts = evs[Len(evs)].ts
          /\ evs[Len(evs)].id # Zero8 => st.cur[1].id = evs[Len(evs)].id
NoFail == \A i \in 1..Len(h) : ~h[i].fail
Counts == NoFail => CASE st.kind \in {"basic", "pass"} -> Len(outs) = Len(evs)
                      [] st.kind = "sample" -> Len(outs) = (Len(evs) + st.n - 1) \div st.n
                      [] st.kind = "interval" -> Len(outs) = (IF st.n = 0 THEN Len(evs) ELSE IF evs = <<>> THEN 0 ELSE 1)
                      [] OTHER -> TRUE
\* an event survives its document
RoundTrip == \A i \in 1..Len(outs) : LET r == ReadEvent(EventDoc(outs[i]), ZeroEvent) IN r.ok /\ ~r.wide /\ r.e = outs[i]
Cnt(P(_)) == Cardinality({i \in 1..Len(h) : P(h[i])})
Emit == (Len(h) = MaxOps /\ Cnt(LAMBDA x : x.fail) <= 1 /\ Cnt(LAMBDA x : x.op # "add") <= 1) => PrintT("CASE " \o ToJson([k |-> "hist", kind |-> st.kind, n |-> st.n, ops |-> h]))

(***** documents near that of an event, and custom points ********************)
Base == Ev(N8(5), N8(9), N8(3), N8(7), N8(2), TRUE)
Prior == Ev(N8(1), N8(2), N8(4), N8(8), N8(16), FALSE)
BaseDoc == EventDoc(Base)
Variants == { Scalar(18, N8(77)), Scalar(16, << 255, 255, 255, 255 >>), Scalar(1, N8(1)), Scalar(9, N8(42)), Scalar(8, << 1 >>), Scalar(2, A("x")), NullV,
              MkV(3, <<>>, <<>>, << Elem(A("n"), Scalar(18, N8(6))) >>), MkV(4, <<>>, <<>>, << Elem(A("0"), Scalar(18, N8(6))) >>), MkV(3, <<>>, <<>>, <<>>) }
Paths == UNION { {<< i >>} \cup { << i, j >> : j \in 1..Len(BaseDoc[i].v.e) } : i \in 1..Len(BaseDoc) }
Put(p, v) == IF Len(p) = 1 THEN [BaseDoc EXCEPT ![p[1]].v = v] ELSE [BaseDoc EXCEPT ![p[1]].v.e[p[2]].v = v]
Rename(p, k) == IF Len(p) = 1 THEN [BaseDoc EXCEPT ![p[1]].k = k] ELSE [BaseDoc EXCEPT ![p[1]].v.e[p[2]].k = k]
Drop(p) == IF Len(p) = 1 THEN RemoveAt(BaseDoc, p[1]) ELSE [BaseDoc EXCEPT ![p[1]].v.e = RemoveAt(@, p[2])]
Names == {"ts", "id", "counters", "n", "ops", "opts", "size", "errors", "dur", "total", "timers", "gauges", "guages", "state", "workers", "failed", ""}
DocSet == IF Docs THEN { Put(p, v) : p \in Paths, v \in Variants } \cup { Drop(p) : p \in Paths } \cup { Rename(p, A(k)) : p \in Paths, k \in Names }
                       \cup { BaseDoc \o << BaseDoc[i] >> : i \in 1..5 } \cup { Reverse(BaseDoc), <<>>, BaseDoc }
          ELSE {}
EmitDocs == \A d \in DocSet : PrintT("CASE " \o ToJson([k |-> "read", e |-> Prior, doc |-> d]))
Vals == { G("int64", N8(5), <<>>, <<>>), G("int32", Neg8(5), <<>>, <<>>), G("int", N8(7), <<>>, <<>>), G("bool", << 1 >>, <<>>, <<>>), G("time", N8(3), <<>>, <<>>),
          G("float64", N8(1), <<>>, <<>>), G("uint32", << 255, 255, 255, 255, 0, 0, 0, 0 >>, <<>>, <<>>), G("uint64", N8(1), <<>>, <<>>), G("uint64", Neg8(1), <<>>, <<>>),
          G("string", A("s"), <<>>, <<>>), G("nil", <<>>, <<>>, <<>>), G("int8", N8(1), <<>>, <<>>), G("map", <<>>, <<>>, <<>>) }
Pt(k, v) == [k |-> A(k), v |-> v]
Seq1(v) == G("seq", <<>>, <<>>, << [k |-> <<>>, v |-> v] >>)
PtSet == IF Docs THEN { << Pt("a", v) >> : v \in Vals } \cup { << Pt("a", Seq1(v)) >> : v \in {w \in Vals : w.g \notin {"nil", "map"}} }
                      \cup { << Pt(k1, v1), Pt(k2, v2), Pt("b", G("int64", N8(5), <<>>, <<>>)) >> : k1 \in {"b", "c", ""}, k2 \in {"a", "b", "bb"}, v1 \in Vals, v2 \in {G("int32", Neg8(5), <<>>, <<>>), G("string", A("s"), <<>>, <<>>)} }
         ELSE {}
EmitPts == \A p \in PtSet : PrintT("CASE " \o ToJson([k |-> "custom", pts |-> p]))
Once == (h = <<>> /\ st.kind = "basic") => EmitDocs /\ EmitPts
=============================================================================
