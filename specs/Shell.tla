-------------------------------- MODULE Shell --------------------------------
(***************************************************************************)
(* Requests and responses as documents, and the service for shells.          *)
(***************************************************************************)
EXTENDS Service

E0 == << 5, 0, 0, 0, 0 >>
OKKey == << 111, 107 >>
ErrKey == << 101, 114, 114, 109, 115, 103 >>
Own(m) == [m EXCEPT !.rid = << 19, 0, 0, 0 >>]
BodyOf(doc) == << [k |-> 0, id |-> <<>>, docs |-> << doc >>] >>
ReqNS == << 109, 114, 112, 99, 46, 36, 99, 109, 100 >>    \* mrpc.$cmd
Request(t, doc) == IF t = OPMSG THEN Own([NoMsg EXCEPT !.op = OPMSG, !.secs = BodyOf(doc)])
                   ELSE Own([NoMsg EXCEPT !.op = QUERY, !.ns = ReqNS, !.n = << 1, 0, 0, 0 >>, !.docs = << doc, E0 >>])
Response(t, doc) == IF t = OPMSG THEN Own([NoMsg EXCEPT !.op = OPMSG, !.secs = BodyOf(doc)])
                    ELSE Own([NoMsg EXCEPT !.op = REPLY, !.n = << 1, 0, 0, 0 >>, !.docs = << doc >>])
\* the document in a message: << >> or << it >>
BodyDoc(m) == LET i == BodyIx(m) IN IF i = 0 THEN <<>> ELSE << m.secs[i].docs[1] >>
RequestDoc(m) == CASE m.op = OPMSG -> BodyDoc(m) [] m.op = COMMAND -> << m.docs[1] >> [] OTHER -> <<>>
ResponseDoc(m) == CASE m.op = OPMSG -> BodyDoc(m)
                    [] m.op = REPLY -> IF m.docs = <<>> THEN <<>> ELSE << m.docs[1] >>
                    [] m.op = CREPLY -> << m.docs[1] >>
                    [] OTHER -> <<>>

\* the outcome of a command: [ok: 8 bytes, msg]
Wide(v) == IF v.t \notin {16, 18} THEN Z8 ELSE IF v.t = 18 THEN v.s ELSE v.s \o (IF v.s[4] >= 128 THEN << 255, 255, 255, 255 >> ELSE Zero4)
ReadOutcome(doc) ==
  LET es  == Decode(doc).r
      oks == {i \in 1..Len(es) : es[i].k = OKKey}
      ms  == {i \in 1..Len(es) : es[i].k = ErrKey}
      Final(s) == CHOOSE i \in s : \A j \in s : j <= i
  IN  [valid |-> (\A i \in oks : es[i].v.t \in {16, 18}) /\ \A i \in ms : es[i].v.t = 2,
       ok  |-> IF oks = {} THEN Z8 ELSE Wide(es[Final(oks)].v),
       msg |-> IF ms = {} THEN <<>> ELSE es[Final(ms)].v.s]
Succeeds(ok, msg) == msg = <<>> /\ ok # Z8
OutcomeDoc(ok, msg) == EncDoc(<< Elem(OKKey, Scalar(16, IF ok THEN << 1, 0, 0, 0 >> ELSE Zero4)), Elem(ErrKey, Scalar(2, msg)) >>)

(***************************************************************************)
(* The service for shells: what the answer to a command says                *)
(***************************************************************************)
Name(s) == s
Fields(cmd, addr) ==     \* << known, succeeds, fields besides ok and errmsg >>
  LET i32(n) == Scalar(16, << n, 0, 0, 0 >>)
      str(s) == Scalar(2, s) IN
  CASE cmd = << 105, 115, 77, 97, 115, 116, 101, 114 >> ->                                  \* isMaster
         << TRUE, TRUE, << Elem(<< 109, 105, 110, 87, 105, 114, 101, 86, 101, 114, 115, 105, 111, 110 >>, i32(0)),
                           Elem(<< 109, 97, 120, 87, 105, 114, 101, 86, 101, 114, 115, 105, 111, 110 >>, i32(6)) >> >>
    [] cmd = << 119, 104, 97, 116, 115, 109, 121, 117, 114, 105 >> ->                        \* whatsmyuri
         << TRUE, TRUE, << Elem(<< 121, 111, 117 >>, str(addr)) >> >>
    [] cmd \in {<< 98, 117, 105, 108, 100, 73, 110, 102, 111 >>, << 98, 117, 105, 108, 100, 105, 110, 102, 111 >>} ->   \* buildInfo
         << TRUE, TRUE, << Elem(<< 118, 101, 114, 115, 105, 111, 110 >>, str(<< 48, 46, 48, 46, 48 >>)) >> >>
    [] cmd = << 103, 101, 116, 76, 111, 103 >> ->                                            \* getLog
         << TRUE, TRUE, << Elem(<< 108, 111, 103 >>, MkV(4, <<>>, <<>>, <<>>)) >> >>
    [] cmd \in {<< 101, 110, 100, 83, 101, 115, 115, 105, 111, 110, 115 >>,                                             \* endSessions
                << 103, 101, 116, 67, 109, 100, 76, 105, 110, 101, 79, 112, 116, 115 >>,                                \* getCmdLineOpts
                << 103, 101, 116, 70, 114, 101, 101, 77, 111, 110, 105, 116, 111, 114, 105, 110, 103, 83, 116, 97, 116, 117, 115 >>,
                << 114, 101, 112, 108, 83, 101, 116, 71, 101, 116, 83, 116, 97, 116, 117, 115 >>,                       \* replSetGetStatus
                << 108, 105, 115, 116, 67, 111, 108, 108, 101, 99, 116, 105, 111, 110, 115 >>} ->                       \* listCollections
         << TRUE, FALSE, <<>> >>
    [] OTHER -> << FALSE, FALSE, <<>> >>
\* a document says these things, and nothing that contradicts them
Says(doc, f) ==
  LET es == Decode(doc).r
      o  == ReadOutcome(doc)
      Has(k) == \E i \in 1..Len(es) : es[i].k = k
  IN  /\ Decode(doc).ok /\ o.valid /\ Has(OKKey) /\ (o.ok # Z8) = f[2] /\ o.msg = <<>>
      /\ \A i \in 1..Len(f[3]) : \E j \in 1..Len(es) : es[j] = f[3][i]
Answers(req, ans, addr) ==
  LET m == Parse(req).m
      s == ScopeOf(m)
      f == Fields(s.cmd, addr)
      a == Parse(ans)
  IN  /\ a.v = "ok" /\ a.m.op = (IF m.op = OPMSG THEN OPMSG ELSE REPLY)
      /\ ResponseDoc(a.m) # <<>> /\ Says(ResponseDoc(a.m)[1], f)
=============================================================================
