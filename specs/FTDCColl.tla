------------------------------ MODULE FTDCColl ------------------------------
(***************************************************************************)
(* The collectors as state machines.                                       *)
(*   st == [k: kind, m: size, meta: <<>> or <<doc>>, ch: chunks of pending  *)
(*          documents, fail: does the stream writer fail, skip: has the     *)
(*          sampling collector collected]                                   *)
(* A step gives the next state, whether the call succeeds, what is written  *)
(* to the stream and what the call itself returns (items).                  *)
(***************************************************************************)
EXTENDS FTDC

Stream    == {"streaming", "sdynamic", "writer", "sjson", "sbson", "sdjson", "sdbson"}
Dynamic   == {"dynamic", "sdynamic", "writer", "sdjson", "sdbson"}
Multi     == {"batch", "dynamic"}
JsonKinds == {"ujson", "sjson", "sdjson"}
Plain     == JsonKinds \cup {"ubson", "sbson", "sdbson"}
Kinds     == {"base", "sync", "sampling", "once"} \cup Stream \cup Multi \cup Plain

New(k, m) == [k |-> k, m |-> m, meta |-> <<>>, ch |-> <<>>, fail |-> FALSE, skip |-> FALSE]

\* numbers of the JSON output do not say how wide they were
RECURSIVE WidenDoc(_)
WidenV(v) == CASE v.t = 16 -> Scalar(18, SignExtend(v.s))
               [] v.t \in {3, 4} -> [v EXCEPT !.e = WidenDoc(@)]
               [] OTHER -> v
WidenDoc(es) == TLCEval([i \in 1..Len(es) |-> Elem(es[i].k, WidenV(es[i].v))])

DocItem(k, d)  == [d |-> << IF k \in JsonKinds THEN WidenDoc(d) ELSE d >>, p |-> <<>>]
DataItem(c)    == [d |-> <<>>, p |-> << Payload(c) >>]
MetaItems(st)  == [i \in 1..Len(st.meta) |-> DocItem(st.k, st.meta[i])]
Items(st) == MetaItems(st) \o
  (IF st.k \in Plain THEN FlattenSeq([q \in 1..Len(st.ch) |-> [j \in 1..Len(st.ch[q]) |-> DocItem(st.k, st.ch[q][j])]])
   ELSE [q \in 1..Len(st.ch) |-> DataItem(st.ch[q])])
Count(st) == FoldLeft(LAMBDA a, c : a + Len(c), 0, st.ch)

\* what may not change within a chunk
SameSchema(k, a, b) ==
  CASE k \in Plain /\ k \notin Dynamic -> Len(a) = Len(b)
    [] k \in Plain -> Len(a) = Len(b) /\ Schema(a) = Schema(b)
    [] k \in Dynamic -> Schema(a) = Schema(b)
    [] OTHER -> Types(a) = Types(b)
Capacity(st) == IF st.k \in Stream \cup Multi \cup Plain THEN st.m ELSE st.m + 1
LastC(st) == st.ch[Len(st.ch)]
Full(st) == st.ch # <<>> /\ Len(LastC(st)) >= Capacity(st)
Cleared(st) == [st EXCEPT !.ch = <<>>, !.meta = IF st.k \in Multi THEN <<>> ELSE @]
StartChunk(st, d) == [st EXCEPT !.ch = Append(@, << d >>)]
Extend(st, d) == [st EXCEPT !.ch[Len(st.ch)] = Append(@, d)]

Res(s, ok, w, r) == [st |-> s, ok |-> ok, w |-> w, r |-> r]
Same(st) == Res(st, TRUE, <<>>, <<>>)
Fails(st) == Res(st, FALSE, <<>>, <<>>)

Add(st, d) ==
  IF st.ch = <<>> THEN Res(StartChunk(st, d), TRUE, <<>>, <<>>)
  ELSE LET same == SameSchema(st.k, LastC(st)[1], d) IN
    CASE st.k \in Stream /\ (Full(st) \/ (st.k \in Dynamic /\ ~same)) ->
           (IF st.fail THEN Fails(st) ELSE Res(StartChunk(Cleared(st), d), TRUE, Items(st), <<>>))
      [] st.k \in Multi /\ (Full(st) \/ (st.k \in Dynamic /\ ~same)) -> Res(StartChunk(st, d), TRUE, <<>>, <<>>)
      [] Full(st) \/ ~same -> Fails(st)
      [] OTHER -> Res(Extend(st, d), TRUE, <<>>, <<>>)

CDo(st, op) ==
  CASE op.n = "new" -> Same(New(op.k, op.m))
    [] op.n = "add" -> IF st.k = "once" THEN (IF st.skip THEN Same(st) ELSE LET r == Add(st, op.d[1]) IN [r EXCEPT !.st.skip = TRUE])
                       ELSE Add(st, op.d[1])
    [] op.n = "addbad" -> Fails(st)
    [] op.n = "meta" -> Same([st EXCEPT !.meta = op.d])      \* <<>>: unset
    [] op.n = "metabad" -> Fails(st)
    [] op.n = "resolve" -> IF st.ch = <<>> THEN Fails(st) ELSE Res(st, TRUE, <<>>, Items(st))
    [] op.n = "reset" -> Same(Cleared(st))
    [] op.n = "flush" -> IF st.ch = <<>> THEN Same(st) ELSE Res(Cleared(st), TRUE, <<>>, Items(st))
    [] op.n \in {"flushbad", "flushshort"} -> IF st.ch = <<>> THEN Same(st) ELSE Fails(st)
    [] op.n = "flushnil" -> Fails(st)
    [] op.n = "close" -> IF st.fail /\ st.ch # <<>> THEN Fails(st)
                         ELSE Res(Cleared(st), TRUE, IF st.ch = <<>> THEN <<>> ELSE Items(st), <<>>)
    [] op.n = "writer" -> Same([st EXCEPT !.fail = (op.m = 1)])

\* the view: number of samples, number of metrics (of a single chunk), what resolving gives
Metrics(st) == IF st.k \in Multi \cup {"writer"} THEN -1
               ELSE IF st.ch = <<>> THEN 0
               ELSE LET x == LastC(st)[1] IN IF st.k \in Plain THEN Len(LastC(st)[Len(LastC(st))]) ELSE Len(Flat(x))
CView(st) == IF st.k = "writer" THEN [n |-> -1, mc |-> -1, res |-> <<>>]
             ELSE [n |-> Count(st), mc |-> Metrics(st), res |-> IF st.ch = <<>> THEN <<>> ELSE << Items(st) >>]
=============================================================================
