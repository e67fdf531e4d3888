-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The messages of the MongoDB wire protocol.  A message is                 *)
(*   [op, rid, rto,            opcode, 4-byte request and response ids      *)
(*    f, a, n,                 flags; skip or start; number returned        *)
(*    ns, cmd, cur, curs,      namespace or database, command, cursor ids   *)
(*    docs, secs, sum,         documents (as bytes), sections, checksum     *)
(*    up]                      a command that arrived as a query            *)
(* and a section [k: 0 body or 1 sequence, id, docs].                       *)
(***************************************************************************)
EXTENDS BSON

Zero4 == << 0, 0, 0, 0 >>
Z8 == << 0, 0, 0, 0, 0, 0, 0, 0 >>
NoMsg == [op |-> 0, rid |-> Zero4, rto |-> Zero4, f |-> Zero4, a |-> Zero4, n |-> Zero4, ns |-> <<>>, cmd |-> <<>>,
          cur |-> Z8, curs |-> <<>>, docs |-> <<>>, secs |-> <<>>, sum |-> Zero4, up |-> FALSE]
REPLY == 1
UPDATE == 2001
INSERT == 2002
QUERY == 2004
GETMORE == 2005
DELETE == 2006
KILL == 2007
COMMAND == 2010
CREPLY == 2011
OPMSG == 2013
Ops == {REPLY, UPDATE, INSERT, QUERY, GETMORE, DELETE, KILL, COMMAND, CREPLY, OPMSG}
Bit(f, i) == (f[1] \div (2^i)) % 2 = 1
CS(s) == s \o << 0 >>
Cat(ss) == FlattenSeq(ss)

(***************************************************************************)
(* To bytes                                                                 *)
(***************************************************************************)
SecBytes(s) == IF s.k = 0 THEN << 0 >> \o s.docs[1]
               ELSE LET body == CS(s.id) \o Cat(s.docs) IN << 1 >> \o LE32(4 + Len(body)) \o body
Body(m) ==
  CASE m.op = REPLY -> m.f \o m.cur \o m.a \o m.n \o Cat(m.docs)
    [] m.op \in {UPDATE, DELETE} -> Zero4 \o CS(m.ns) \o m.f \o Cat(m.docs)
    [] m.op = INSERT -> m.f \o CS(m.ns) \o Cat(m.docs)
    [] m.op = QUERY -> m.f \o CS(m.ns) \o m.a \o m.n \o Cat(m.docs)
    [] m.op = GETMORE -> Zero4 \o CS(m.ns) \o m.n \o m.cur
    [] m.op = KILL -> Zero4 \o LE32(Len(m.curs)) \o Cat(m.curs)
    [] m.op = COMMAND -> CS(m.ns) \o CS(m.cmd) \o Cat(m.docs)
    [] m.op = CREPLY -> Cat(m.docs)
    [] m.op = OPMSG -> m.f \o Cat([i \in 1..Len(m.secs) |-> SecBytes(m.secs[i])]) \o (IF Bit(m.f, 0) THEN m.sum ELSE <<>>)
Encode(m) == LET b == Body(m) IN LE32(16 + Len(b)) \o m.rid \o m.rto \o LE32(m.op) \o b

(***************************************************************************)
(* From bytes: [v: "ok", "err", or "any" where the protocol leaves it open  *)
(* (bytes after the end of a message), m]                                   *)
(***************************************************************************)
No == [v |-> "err", m |-> NoMsg]
Got(m) == [v |-> "ok", m |-> m]
Open(m) == [v |-> "any", m |-> m]
Cut(b, p, n) == SubSeq(b, p, p + n - 1)
RECURSIVE DocsTo(_, _, _, _)
\* documents from p that end exactly at last
DocsTo(b, p, last, acc) ==
  IF p = last + 1 THEN [ok |-> TRUE, docs |-> acc]
  ELSE LET d == ParseDoc(b, p, last)
       IN  IF d.ok THEN DocsTo(b, p + d.n, last, TLCEval(Append(acc, Cut(b, p, d.n)))) ELSE [ok |-> FALSE, docs |-> <<>>]
\* exactly k documents from p: [ok, docs, n]
RECURSIVE DocsN(_, _, _, _)
DocsN(b, p, k, acc) ==
  IF k = 0 THEN [ok |-> TRUE, docs |-> acc, p |-> p]
  ELSE LET d == ParseDoc(b, p, Len(b))
       IN  IF d.ok THEN DocsN(b, p + d.n, k - 1, Append(acc, Cut(b, p, d.n))) ELSE [ok |-> FALSE, docs |-> <<>>, p |-> p]
CStr(b, p) == LET z == NulAt(b, p, Len(b)) IN [ok |-> z # 0, s |-> IF z = 0 THEN <<>> ELSE SubSeq(b, p, z - 1), p |-> z + 1]
End(b, p, m) == IF p = Len(b) + 1 THEN Got(m) ELSE Open(m)
Dot == 46
DotAt(ns) == LET ix == {i \in 1..Len(ns) : ns[i] = Dot} IN IF ix = {} THEN 0 ELSE CHOOSE i \in ix : \A j \in ix : i <= j
IsCommandNS(ns) == LET d == DotAt(ns) IN d # 0 /\ d < Len(ns) /\ ns[d + 1] = 36
DBOf(ns) == LET d == DotAt(ns) IN IF d = 0 THEN ns ELSE SubSeq(ns, 1, d - 1)
CollOf(ns) == LET d == DotAt(ns) IN IF d = 0 THEN <<>> ELSE SubSeq(ns, d + 1, Len(ns))
FirstKey(doc) == LET es == Decode(doc).r IN IF es = <<>> THEN <<>> ELSE es[1].k

RECURSIVE Secs(_, _, _, _)
Secs(b, p, last, acc) ==
  IF p = last + 1 THEN [ok |-> TRUE, secs |-> acc]
  ELSE IF p > last THEN [ok |-> FALSE, secs |-> <<>>]
  ELSE IF b[p] = 0 THEN
    LET d == ParseDoc(b, p + 1, last)
    IN  IF d.ok THEN Secs(b, p + 1 + d.n, last, Append(acc, [k |-> 0, id |-> <<>>, docs |-> << Cut(b, p + 1, d.n) >>]))
        ELSE [ok |-> FALSE, secs |-> <<>>]
  ELSE IF b[p] = 1 THEN
    IF p + 4 > last THEN [ok |-> FALSE, secs |-> <<>>]
    ELSE LET size == I32(b, p + 1)
             stop == p + size           \* last byte of the section
             z    == NulAt(b, p + 5, last)
         IN  IF size < 5 \/ size > last - p \/ z = 0 \/ z > stop THEN [ok |-> FALSE, secs |-> <<>>]
             ELSE LET d == DocsTo(b, z + 1, stop, <<>>)
                  IN  IF d.ok THEN Secs(b, stop + 1, last, Append(acc, [k |-> 1, id |-> SubSeq(b, p + 5, z - 1), docs |-> d.docs]))
                      ELSE [ok |-> FALSE, secs |-> <<>>]
  ELSE [ok |-> FALSE, secs |-> <<>>]

\* q is NoMsg with op, rid and rto
ParseBody(q, b) ==
  LET L == Len(b) IN
  CASE q.op = REPLY ->
         IF L < 20 THEN No
         ELSE LET d == DocsTo(b, 21, L, <<>>)
              IN  IF d.ok THEN Got([q EXCEPT !.f = Cut(b, 1, 4), !.cur = Cut(b, 5, 8), !.a = Cut(b, 13, 4), !.n = Cut(b, 17, 4), !.docs = d.docs]) ELSE No
    [] q.op \in {UPDATE, DELETE} ->
         IF L < 4 THEN No
         ELSE LET s == CStr(b, 5) IN
              IF ~s.ok \/ L < s.p + 3 THEN No
              ELSE LET d == DocsN(b, s.p + 4, IF q.op = UPDATE THEN 2 ELSE 1, <<>>)
                   IN  IF d.ok THEN End(b, d.p, [q EXCEPT !.ns = s.s, !.f = Cut(b, s.p, 4), !.docs = d.docs]) ELSE No
    [] q.op = INSERT ->
         IF L < 4 THEN No
         ELSE LET s == CStr(b, 5) IN
              IF ~s.ok THEN No
              ELSE LET d == DocsTo(b, s.p, L, <<>>)
                   IN  IF d.ok THEN Got([q EXCEPT !.f = Cut(b, 1, 4), !.ns = s.s, !.docs = d.docs]) ELSE No
    [] q.op = QUERY ->
         IF L < 4 THEN No
         ELSE LET s == CStr(b, 5) IN
              IF ~s.ok \/ L < s.p + 7 THEN No
              ELSE LET d1 == DocsN(b, s.p + 8, 1, <<>>) IN
                   IF ~d1.ok THEN No
                   ELSE LET d2 == DocsN(b, s.p + 8, 2, <<>>)
                            d  == IF d1.p = L + 1 THEN d1 ELSE d2
                            m  == [q EXCEPT !.f = Cut(b, 1, 4), !.ns = s.s, !.a = Cut(b, s.p, 4), !.n = Cut(b, s.p + 4, 4), !.docs = d.docs]
                        IN  IF ~d.ok THEN No
                            ELSE IF ~IsCommandNS(s.s) THEN End(b, d.p, m)
                            ELSE IF Decode(d.docs[1]).r = <<>> THEN No
                            ELSE End(b, d.p, [q EXCEPT !.op = COMMAND, !.ns = DBOf(s.s), !.cmd = FirstKey(d.docs[1]), !.docs = << d.docs[1] >>, !.up = TRUE])
    [] q.op = GETMORE ->
         IF L < 4 THEN No
         ELSE LET s == CStr(b, 5) IN
              IF ~s.ok \/ L < s.p + 11 THEN No
              ELSE End(b, s.p + 12, [q EXCEPT !.ns = s.s, !.n = Cut(b, s.p, 4), !.cur = Cut(b, s.p + 4, 8)])
    [] q.op = KILL ->
         IF L < 8 THEN No
         ELSE LET k == I32(b, 5) IN
              IF k < 0 \/ k > (L - 8) \div 8 THEN No
              ELSE End(b, 9 + 8 * k, [q EXCEPT !.curs = [i \in 1..k |-> Cut(b, 1 + 8 * i, 8)]])
    [] q.op = COMMAND ->
         LET s == CStr(b, 1) IN
         IF ~s.ok THEN No
         ELSE LET c == CStr(b, s.p) IN
              IF ~c.ok THEN No
              ELSE LET d == DocsTo(b, c.p, L, <<>>)
                   IN  IF d.ok /\ Len(d.docs) >= 2 THEN Got([q EXCEPT !.ns = s.s, !.cmd = c.s, !.docs = d.docs]) ELSE No
    [] q.op = CREPLY ->
         LET d == DocsTo(b, 1, L, <<>>)
         IN  IF d.ok /\ Len(d.docs) >= 2 THEN Got([q EXCEPT !.docs = d.docs]) ELSE No
    [] q.op = OPMSG ->
         IF L < 4 THEN No
         ELSE LET f == Cut(b, 1, 4)
                  last == IF Bit(f, 0) THEN L - 4 ELSE L
                  s == Secs(b, 5, last, <<>>)
              IN  IF last < 4 \/ ~s.ok THEN No
                  ELSE Got([q EXCEPT !.f = f, !.secs = s.secs, !.sum = IF Bit(f, 0) THEN Cut(b, L - 3, 4) ELSE Zero4])
    [] OTHER -> No
OpOf(b4) == IF b4[3] = 0 /\ b4[4] = 0 THEN b4[1] + 256 * b4[2] ELSE 0
\* a message with its header
Parse(b) == IF Len(b) < 16 THEN No
            ELSE ParseBody([NoMsg EXCEPT !.op = OpOf(Cut(b, 13, 4)), !.rid = Cut(b, 5, 4), !.rto = Cut(b, 9, 4)], SubSeq(b, 17, Len(b)))

\* messages are the same up to documents being written the same way
SameDoc(x, y) == x = y \/ (Decode(x).ok /\ Decode(y).ok /\ Decode(x).n = Len(x) /\ Decode(y).n = Len(y) /\ Norm(Decode(x).r) = Norm(Decode(y).r))
SameDocs(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : SameDoc(x[i], y[i])
SameSecs(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : x[i].k = y[i].k /\ x[i].id = y[i].id /\ SameDocs(x[i].docs, y[i].docs)
SameMsg(x, y) == /\ SameDocs(x.docs, y.docs) /\ SameSecs(x.secs, y.secs)
                 /\ [x EXCEPT !.docs = <<>>, !.secs = <<>>] = [y EXCEPT !.docs = <<>>, !.secs = <<>>]

(***************************************************************************)
(* What a message is about                                                  *)
(***************************************************************************)
DollarDB == << 36, 100, 98 >>
BodyIx(m) == LET ix == {i \in 1..Len(m.secs) : m.secs[i].k = 0} IN IF ix = {} THEN 0 ELSE CHOOSE i \in ix : \A j \in ix : i <= j
StrUnder(doc, k) == LET es == Decode(doc).r
                        ix == {i \in 1..Len(es) : es[i].k = k}
                    IN  IF ix = {} THEN <<>>
                        ELSE LET v == es[CHOOSE i \in ix : \A j \in ix : i <= j].v IN IF v.t = 2 THEN v.s ELSE <<>>
NoScope == [t |-> 0, ctx |-> <<>>, cmd |-> <<>>]
ScopeOf(m) ==
  CASE m.op \in {REPLY, CREPLY} -> NoScope
    [] m.op = KILL -> [t |-> KILL, ctx |-> <<>>, cmd |-> <<>>]
    [] m.op = COMMAND -> [t |-> COMMAND, ctx |-> m.ns, cmd |-> m.cmd]
    [] m.op = OPMSG -> LET i == BodyIx(m) IN
         [t |-> OPMSG, ctx |-> IF i = 0 THEN <<>> ELSE StrUnder(m.secs[i].docs[1], DollarDB),
          cmd |-> IF i = 0 THEN <<>> ELSE FirstKey(m.secs[i].docs[1])]
    [] OTHER -> [t |-> m.op, ctx |-> m.ns, cmd |-> <<>>]
\* whether the sender waits for a reply (OP_MSG: not decided here once it has flags)
Responds(m) == m.op \in {QUERY, GETMORE, COMMAND}

\* the model: [t, ns, cmd, a, n, cur, docs, items, x, y] (x, y: its two booleans)
NoModel == [t |-> 0, ns |-> <<>>, cmd |-> <<>>, a |-> Zero4, n |-> Zero4, cur |-> Z8, docs |-> <<>>, items |-> <<>>, x |-> FALSE, y |-> FALSE]
ModelOf(m) ==
  LET k == [NoModel EXCEPT !.t = m.op] IN
  CASE m.op = COMMAND -> [k EXCEPT !.ns = m.ns, !.cmd = m.cmd, !.docs = m.docs, !.x = m.up]
    [] m.op = DELETE -> [k EXCEPT !.ns = m.ns, !.docs = m.docs]
    [] m.op = INSERT -> [k EXCEPT !.ns = m.ns, !.docs = m.docs]
    [] m.op = QUERY -> [k EXCEPT !.ns = m.ns, !.a = m.a, !.n = m.n, !.docs = m.docs]
    [] m.op = GETMORE -> [k EXCEPT !.ns = m.ns, !.n = m.n, !.cur = m.cur]
    [] m.op = UPDATE -> [k EXCEPT !.ns = m.ns, !.docs = m.docs, !.x = Bit(m.f, 0), !.y = Bit(m.f, 1)]
    [] m.op = REPLY -> [k EXCEPT !.a = m.a, !.cur = m.cur, !.docs = m.docs, !.x = Bit(m.f, 0), !.y = Bit(m.f, 1)]
    [] m.op = OPMSG -> [k EXCEPT !.x = Bit(m.f, 0), !.y = Bit(m.f, 1),
                          !.items = [i \in 1..Len(m.secs) |-> [id |-> IF m.secs[i].k = 0 THEN FirstKey(m.secs[i].docs[1]) ELSE m.secs[i].id, docs |-> m.secs[i].docs]]]
    [] OTHER -> NoModel
SameModel(x, y) == /\ SameDocs(x.docs, y.docs)
                   /\ Len(x.items) = Len(y.items) /\ \A i \in 1..Len(x.items) : x.items[i].id = y.items[i].id /\ SameDocs(x.items[i].docs, y.items[i].docs)
                   /\ [x EXCEPT !.docs = <<>>, !.items = <<>>] = [y EXCEPT !.docs = <<>>, !.items = <<>>]

(***************************************************************************)
(* A stream: what reading one message from position p gives.                *)
(*   "end" nothing left; "cut" or "size" the stream is of no use any more;  *)
(*   otherwise the message, and where the next one starts                   *)
(***************************************************************************)
MaxMessage == 209715200
Big(b, p) == b[p + 3] >= 128 \/ b[p + 3] > 12 \/ (b[p + 3] = 12 /\ (b[p + 2] > 128 \/ (b[p + 2] = 128 /\ b[p] + b[p + 1] > 0)))
ReadAt(b, p) ==
  LET left == Len(b) - p + 1 IN
  IF left = 0 THEN [r |-> "end", m |-> NoMsg, p |-> p]
  ELSE IF left < 4 THEN [r |-> "cut", m |-> NoMsg, p |-> p]
  ELSE IF Big(b, p) THEN [r |-> "size", m |-> NoMsg, p |-> p]
  ELSE LET size == I32(b, p) IN
       IF size < 16 THEN [r |-> "size", m |-> NoMsg, p |-> p]
       ELSE IF size > left THEN [r |-> "cut", m |-> NoMsg, p |-> p]
       ELSE LET x == Parse(Cut(b, p, size)) IN [r |-> x.v, m |-> x.m, p |-> p + size]
=============================================================================
