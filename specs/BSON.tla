-------------------------------- MODULE BSON --------------------------------
(***************************************************************************)
(* The BSON data model of birch: abstract values, their byte-exact wire    *)
(* form and the set of byte strings that are well-formed documents.        *)
(*                                                                         *)
(* A byte is 0..255.  TLC integers are 32 bits wide, so every 64-bit       *)
(* quantity is kept as the sequence of its little-endian bytes.            *)
(*                                                                         *)
(*   value   == [t: type byte, s: bytes, o: bytes, e: Seq(element)]        *)
(*   element == [k: bytes (no NUL), v: value]                              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC

Bytes(n, u) == [i \in 1..n |-> (u \div (256^(i-1))) % 256]
LE32(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256 >>

MkV(t, s, o, e) == [t |-> t, s |-> s, o |-> o, e |-> e]
Elem(k, v) == [k |-> k, v |-> v]
Scalar(t, s) == MkV(t, s, <<>>, <<>>)

FixedWidth(t) == CASE t \in {1, 9, 17, 18} -> 8
                   [] t = 16 -> 4
                   [] t = 7  -> 12
                   [] t = 8  -> 1
                   [] t = 19 -> 16
                   [] t \in {6, 10, 127, 255} -> 0
                   [] OTHER -> -1

\* decimal digits of a natural number, as ASCII bytes: the keys of an array
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN << 48 + n >> ELSE Digits(n \div 10) \o << 48 + (n % 10) >>

StrBytes(s) == LE32(Len(s) + 1) \o s \o << 0 >>

(***************************************************************************)
(* Encoding                                                                *)
(***************************************************************************)
RECURSIVE EncValue(_)
RECURSIVE EncElems(_)

EncDoc(es) == LET body == EncElems(es)
              IN  LE32(Len(body) + 5) \o body \o << 0 >>

EncElem(k, v) == << v.t >> \o k \o << 0 >> \o EncValue(v)

EncElems(es) == FlattenSeq([i \in 1..Len(es) |-> EncElem(es[i].k, es[i].v)])

\* An array is a document whose keys are the positions, whatever keys the
\* values carried before.
IndexKeys(es) == [i \in 1..Len(es) |-> Elem(Digits(i - 1), es[i].v)]

EncValue(v) ==
  CASE v.t \in {2, 13, 14} -> StrBytes(v.s)
    [] v.t = 3  -> EncDoc(v.e)
    [] v.t = 4  -> EncDoc(IndexKeys(v.e))
    [] v.t = 5  -> IF v.o[1] = 2
                   THEN LE32(Len(v.s) + 4) \o << 2 >> \o LE32(Len(v.s)) \o v.s
                   ELSE LE32(Len(v.s)) \o v.o \o v.s
    [] v.t = 11 -> v.s \o << 0 >> \o v.o \o << 0 >>
    [] v.t = 12 -> StrBytes(v.s) \o v.o
    [] v.t = 15 -> LET body == StrBytes(v.s) \o EncDoc(v.e)
                   IN  LE32(Len(body) + 4) \o body
    [] OTHER    -> v.s

(***************************************************************************)
(* Well-formedness / decoding                                              *)
(*                                                                         *)
(* Parse results are [ok, n, r]: n bytes consumed, r the decoded thing.    *)
(* I32 reads a little-endian int32; values whose top byte is >= 128 are    *)
(* negative and values >= 2^24 exceed every buffer considered here, so     *)
(* both are mapped to -1 / a "too large" marker without overflowing TLC.   *)
(***************************************************************************)
TooBig == 2147483647
I32(b, p) == IF b[p + 3] >= 128 THEN -1
             ELSE IF b[p + 3] > 0 THEN TooBig
             ELSE b[p] + 256 * b[p + 1] + 65536 * b[p + 2]

Bad == [ok |-> FALSE, n |-> 0, r |-> <<>>]
Ok(n, r) == [ok |-> TRUE, n |-> n, r |-> r]

RECURSIVE NulAt(_, _, _)
\* the first position in p..last holding 0, or 0 when there is none
NulAt(b, p, last) == IF p > last THEN 0
                     ELSE IF b[p] = 0 THEN p
                     ELSE NulAt(b, p + 1, last)

\* a length-prefixed, NUL-terminated string inside b[p..last]
ParseStr(b, p, last) ==
  IF p + 3 > last THEN Bad
  ELSE LET l == I32(b, p)
       IN  IF l < 1 \/ l > last - (p + 3) THEN Bad
           ELSE IF b[p + 3 + l] # 0 THEN Bad
           ELSE Ok(4 + l, SubSeq(b, p + 4, p + 2 + l))

RECURSIVE ParseDoc(_, _, _)
RECURSIVE ParseElems(_, _, _, _)
RECURSIVE ParseValue(_, _, _, _)

\* a document starting at p and lying inside b[p..last]
ParseDoc(b, p, last) ==
  IF last - p + 1 < 5 THEN Bad
  ELSE LET l == I32(b, p)
       IN  IF l < 5 \/ l > last - p + 1 THEN Bad
           ELSE LET r == ParseElems(b, p + 4, p + l - 1, <<>>)
                IN  IF r.ok THEN Ok(l, r.r) ELSE Bad

\* elements from p; the terminator must be exactly b[last]
ParseElems(b, p, last, acc) ==
  IF p > last THEN Bad
  ELSE IF b[p] = 0 THEN (IF p = last THEN Ok(0, acc) ELSE Bad)
  ELSE LET z == NulAt(b, p + 1, last - 1)
       IN  IF z = 0 THEN Bad
           ELSE LET v == ParseValue(b, b[p], z + 1, last - 1)
                IN  IF ~v.ok THEN Bad
                    ELSE ParseElems(b, z + 1 + v.n, last,
                                    Append(acc, Elem(SubSeq(b, p + 1, z - 1), v.r)))

ParseValue(b, t, p, last) ==
  CASE FixedWidth(t) >= 0 ->
         LET w == FixedWidth(t)
         IN  IF p + w - 1 > last THEN Bad
             ELSE IF t = 8 /\ b[p] \notin {0, 1} THEN Bad
             ELSE Ok(w, Scalar(t, SubSeq(b, p, p + w - 1)))
    [] t \in {2, 13, 14} ->
         LET s == ParseStr(b, p, last)
         IN  IF s.ok THEN Ok(s.n, Scalar(t, s.r)) ELSE Bad
    [] t \in {3, 4} ->
         LET d == ParseDoc(b, p, last)
         IN  IF d.ok THEN Ok(d.n, MkV(t, <<>>, <<>>, d.r)) ELSE Bad
    [] t = 5 ->
         IF p + 4 > last THEN Bad
         ELSE LET l  == I32(b, p)
                  st == b[p + 4]
              IN  IF l < 0 \/ l > last - (p + 4) THEN Bad
                  ELSE IF st > 5 /\ st < 128 THEN Bad
                  ELSE IF st # 2
                  THEN Ok(5 + l, MkV(5, SubSeq(b, p + 5, p + 4 + l), << st >>, <<>>))
                  ELSE IF l < 4 THEN Bad
                  ELSE IF I32(b, p + 5) # l - 4 THEN Bad
                  ELSE Ok(5 + l, MkV(5, SubSeq(b, p + 9, p + 4 + l), << 2 >>, <<>>))
    [] t = 11 ->
         LET z1 == NulAt(b, p, last)
         IN  IF z1 = 0 THEN Bad
             ELSE LET z2 == NulAt(b, z1 + 1, last)
                  IN  IF z2 = 0 THEN Bad
                      ELSE Ok(z2 - p + 1, MkV(11, SubSeq(b, p, z1 - 1), SubSeq(b, z1 + 1, z2 - 1), <<>>))
    [] t = 12 ->
         LET s == ParseStr(b, p, last)
         IN  IF ~s.ok THEN Bad
             ELSE IF p + s.n + 11 > last THEN Bad
             ELSE Ok(s.n + 12, MkV(12, s.r, SubSeq(b, p + s.n, p + s.n + 11), <<>>))
    [] t = 15 ->
         IF p + 3 > last THEN Bad
         ELSE LET l == I32(b, p)
              IN  IF l < 14 \/ l > last - p + 1 THEN Bad
                  ELSE LET s == ParseStr(b, p + 4, p + l - 1)
                       IN  IF ~s.ok THEN Bad
                           ELSE LET d == ParseDoc(b, p + 4 + s.n, p + l - 1)
                                IN  IF ~d.ok THEN Bad
                                    ELSE IF 4 + s.n + d.n # l THEN Bad
                                    ELSE Ok(l, MkV(15, s.r, <<>>, d.r))
    [] OTHER -> Bad

\* The document that a buffer starts with (bytes after it are not looked at).
Decode(b) == ParseDoc(b, 1, Len(b))
WellFormed(b) == Decode(b).ok

\* array keys inside a decoded document are irrelevant to its meaning
RECURSIVE NormV(_)
Norm(es) == [i \in 1..Len(es) |-> Elem(es[i].k, NormV(es[i].v))]
NormV(v) == CASE v.t \in {3, 15} -> MkV(v.t, v.s, v.o, Norm(v.e))
              [] v.t = 4 -> MkV(v.t, v.s, v.o, Norm(IndexKeys(v.e)))
              [] OTHER -> v
=============================================================================
