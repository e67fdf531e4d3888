-------------------------------- MODULE ExtJSON --------------------------------
(***************************************************************************)
(* JSON texts and MongoDB extended JSON.                                   *)
(*   tree == [j: kind, s: bytes, e: Seq([k: bytes, v: tree])]              *)
(* kinds: obj arr str num true false null; s holds the string content or   *)
(* the number token.  256 in a string stands for an unpaired surrogate.    *)
(***************************************************************************)
EXTENDS Decimal, BSON

T(j, s, e) == [j |-> j, s |-> s, e |-> e]
Mem(k, v) == [k |-> k, v |-> v]

Fail == [ok |-> FALSE, p |-> 0, eof |-> FALSE, r |-> T("null", <<>>, <<>>)]
More == [ok |-> FALSE, p |-> 0, eof |-> TRUE, r |-> T("null", <<>>, <<>>)]
Got(p, r) == [ok |-> TRUE, p |-> p, eof |-> FALSE, r |-> r]
FailB == [ok |-> FALSE, p |-> 0, eof |-> FALSE, r |-> <<>>]
MoreB == [ok |-> FALSE, p |-> 0, eof |-> TRUE, r |-> <<>>]
GotB(p, r) == [ok |-> TRUE, p |-> p, eof |-> FALSE, r |-> r]

RECURSIVE WS(_, _)
WS(b, p) == IF p <= Len(b) /\ b[p] \in {32, 9, 10, 13} THEN WS(b, p + 1) ELSE p

Utf8(c) == IF c < 128 THEN << c >>
           ELSE IF c < 2048 THEN << 192 + c \div 64, 128 + (c % 64) >>
           ELSE IF c < 65536 THEN << 224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64) >>
           ELSE << 240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64) >>

\* valid UTF-8 (no overlong forms, no surrogates)
RECURSIVE ValidUtf8(_, _)
Cont(b, p) == p <= Len(b) /\ b[p] >= 128 /\ b[p] <= 191
ValidUtf8(b, p) ==
  IF p > Len(b) THEN TRUE
  ELSE LET c == b[p] IN
    CASE c < 128 -> ValidUtf8(b, p + 1)
      [] c \in 194..223 -> Cont(b, p + 1) /\ ValidUtf8(b, p + 2)
      [] c \in 224..239 -> /\ Cont(b, p + 1) /\ Cont(b, p + 2)
                           /\ (c = 224 => b[p + 1] >= 160) /\ (c = 237 => b[p + 1] <= 159)
                           /\ ValidUtf8(b, p + 3)
      [] c \in 240..244 -> /\ Cont(b, p + 1) /\ Cont(b, p + 2) /\ Cont(b, p + 3)
                           /\ (c = 240 => b[p + 1] >= 144) /\ (c = 244 => b[p + 1] <= 143)
                           /\ ValidUtf8(b, p + 4)
      [] OTHER -> FALSE

Hex4(b, p) == 4096 * HexVal(b[p]) + 256 * HexVal(b[p + 1]) + 16 * HexVal(b[p + 2]) + HexVal(b[p + 3])
IsHex4(b, p) == p + 3 <= Len(b) /\ \A i \in p..(p + 3) : IsHex(b[i])
Escapes == [c \in {34, 92, 47, 98, 102, 110, 114, 116} |->
              CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c]

\* p: the byte after the opening quote
RECURSIVE PStr(_, _, _)
PStr(b, p, acc) ==
  IF p > Len(b) THEN MoreB
  ELSE LET c == b[p] IN
    CASE c = 34 -> GotB(p + 1, acc)
      [] c < 32 -> FailB
      [] c = 92 ->
          IF p + 1 > Len(b) THEN MoreB
          ELSE LET x == b[p + 1] IN
            IF x \in DOMAIN Escapes THEN PStr(b, p + 2, Append(acc, Escapes[x]))
            ELSE IF x # 117 THEN FailB
            ELSE IF ~IsHex4(b, p + 2)
                 THEN (IF Len(b) < p + 5 /\ \A i \in (p + 2)..Len(b) : IsHex(b[i]) THEN MoreB ELSE FailB)
            ELSE LET u == Hex4(b, p + 2)
                     pair == /\ u \in 55296..56319 /\ p + 7 <= Len(b) /\ b[p + 6] = 92 /\ b[p + 7] = 117
                             /\ IsHex4(b, p + 8) /\ Hex4(b, p + 8) \in 56320..57343
                 IN  IF pair THEN PStr(b, p + 12, acc \o Utf8(65536 + (u - 55296) * 1024 + (Hex4(b, p + 8) - 56320)))
                     ELSE IF u \in 55296..57343 THEN PStr(b, p + 6, Append(acc, 256))
                     ELSE PStr(b, p + 6, acc \o Utf8(u))
      [] OTHER -> PStr(b, p + 1, Append(acc, c))

\* number tokens: where the token ends, or why it is not one
PNum(b, p) ==
  LET n  == Len(b)
      q0 == IF b[p] = 45 THEN p + 1 ELSE p
  IN  IF q0 > n THEN More
      ELSE IF ~IsDigit(b[q0]) THEN Fail
      ELSE LET q1 == IF b[q0] = 48 THEN q0 + 1 ELSE DigitsEnd(b, q0)
               frac == q1 <= n /\ b[q1] = 46
               q2 == IF frac THEN DigitsEnd(b, q1 + 1) ELSE q1
           IN  IF frac /\ q2 = q1 + 1 THEN (IF q2 > n THEN More ELSE Fail)
               ELSE LET ex == q2 <= n /\ b[q2] \in {69, 101}
                        sg == ex /\ q2 + 1 <= n /\ b[q2 + 1] \in {43, 45}
                        x  == IF sg THEN q2 + 2 ELSE q2 + 1
                        q3 == IF ex THEN DigitsEnd(b, x) ELSE q2
                    IN  IF ex /\ q3 = x THEN (IF q3 > n THEN More ELSE Fail)
                        ELSE Got(q3, T("num", SubSeq(b, p, q3 - 1), <<>>))

PLit(b, p, lit, j) ==
  LET k == IF Len(b) - p + 1 < Len(lit) THEN Len(b) - p + 1 ELSE Len(lit)
  IN  IF SubSeq(b, p, p + k - 1) # SubSeq(lit, 1, k) THEN Fail
      ELSE IF k < Len(lit) THEN More
      ELSE Got(p + k, T(j, <<>>, <<>>))

RECURSIVE PVal(_, _)
RECURSIVE PMembers(_, _, _)
RECURSIVE PItems(_, _, _)
PVal(b, p0) ==
  LET p == WS(b, p0) IN
  IF p > Len(b) THEN More
  ELSE LET c == b[p] IN
    CASE c = 123 -> LET q == WS(b, p + 1) IN
                    IF q > Len(b) THEN More
                    ELSE IF b[q] = 125 THEN Got(q + 1, T("obj", <<>>, <<>>))
                    ELSE PMembers(b, q, <<>>)
      [] c = 91 -> LET q == WS(b, p + 1) IN
                   IF q > Len(b) THEN More
                   ELSE IF b[q] = 93 THEN Got(q + 1, T("arr", <<>>, <<>>))
                   ELSE PItems(b, q, <<>>)
      [] c = 34 -> LET s == PStr(b, p + 1, <<>>)
                   IN  IF s.ok THEN Got(s.p, T("str", s.r, <<>>)) ELSE IF s.eof THEN More ELSE Fail
      [] c = 45 \/ IsDigit(c) -> PNum(b, p)
      [] c = 116 -> PLit(b, p, << 116, 114, 117, 101 >>, "true")
      [] c = 102 -> PLit(b, p, << 102, 97, 108, 115, 101 >>, "false")
      [] c = 110 -> PLit(b, p, << 110, 117, 108, 108 >>, "null")
      [] OTHER -> Fail

PMembers(b, p, acc) ==   \* p: at a key
  IF p > Len(b) THEN More
  ELSE IF b[p] # 34 THEN Fail
  ELSE LET s == PStr(b, p + 1, <<>>) IN
    IF ~s.ok THEN (IF s.eof THEN More ELSE Fail)
    ELSE LET q == WS(b, s.p) IN
      IF q > Len(b) THEN More
      ELSE IF b[q] # 58 THEN Fail
      ELSE LET v == PVal(b, q + 1) IN
        IF ~v.ok THEN v
        ELSE LET z == WS(b, v.p)
                 nx == Append(acc, Mem(s.r, v.r)) IN
          IF z > Len(b) THEN More
          ELSE IF b[z] = 125 THEN Got(z + 1, T("obj", <<>>, nx))
          ELSE IF b[z] = 44 THEN PMembers(b, WS(b, z + 1), nx)
          ELSE Fail

PItems(b, p, acc) ==
  LET v == PVal(b, p) IN
  IF ~v.ok THEN v
  ELSE LET z == WS(b, v.p)
           nx == Append(acc, Mem(<<>>, v.r)) IN
    IF z > Len(b) THEN More
    ELSE IF b[z] = 93 THEN Got(z + 1, T("arr", <<>>, nx))
    ELSE IF b[z] = 44 THEN PItems(b, z + 1, nx)
    ELSE Fail

\* the whole text is one JSON value
ParseJSON(b) ==
  LET v == PVal(b, 1) IN
  IF ~v.ok THEN v ELSE IF WS(b, v.p) <= Len(b) THEN Fail ELSE v

RECURSIVE Lone(_)
Lone(t) == \/ \E i \in 1..Len(t.s) : t.s[i] = 256
           \/ \E i \in 1..Len(t.e) : (\E k \in 1..Len(t.e[i].k) : t.e[i].k[k] = 256) \/ Lone(t.e[i].v)

(***************************************************************************)
(* Numbers.  Fl(token) is the environment's correctly rounded binary64:    *)
(* [ok, b].  The harness supplies it (strconv) for every token in a case.  *)
(***************************************************************************)
IntToken(s) == \A i \in 1..Len(s) : s[i] \notin {46, 69, 101}
Lookup(tab, s) == LET i == CHOOSE k \in 1..Len(tab) : tab[k].s = s IN tab[i]
NumVal(s, tab) ==     \* [c: "val"/"err", v]
  IF IntToken(s) /\ Int64Of(s).ok THEN [c |-> "val", v |-> Scalar(18, Int64Of(s).b)]
  ELSE IF ~(\E k \in 1..Len(tab) : tab[k].s = s) THEN Assert(FALSE, << "no such token in the table", s >>)
  ELSE LET f == Lookup(tab, s)
       IN  IF f.ok THEN [c |-> "val", v |-> Scalar(1, f.b)] ELSE [c |-> "err", v |-> Scalar(10, <<>>)]

(***************************************************************************)
(* What a tree means: [c: "val"/"err"/"any", v: BSON value].  Integers are *)
(* all given as 64-bit ones.                                               *)
(***************************************************************************)
Unspec == [c |-> "any", v |-> Scalar(10, <<>>)]
Err == [c |-> "err", v |-> Scalar(10, <<>>)]
Val(v) == [c |-> "val", v |-> v]
Wrappers == { A("$minKey"), A("$maxKey"), A("$numberDecimal"), A("$numberDouble"), A("$timestamp"), A("$symbol"), A("$code"),
              A("$dbPointer"), A("$regularExpression"), A("$date"), A("$oid"), A("$undefined"), A("$binary") }
\* wrapper names of the extended JSON standard that this library may or may not know
MaybeWrappers == { A("$numberInt"), A("$numberLong"), A("$uuid"), A("$regex"), A("$type"), A("$ref"), A("$id"), A("$scope"), A("$options") }

NulFree(s) == \A i \in 1..Len(s) : s[i] # 0
Two(e, a, b) == Len(e) = 2 /\ {e[1].k, e[2].k} = {a, b} /\ a # b
Member(e, k) == LET i == CHOOSE i \in 1..Len(e) : e[i].k = k IN e[i].v
U32(v, tab) == LET n == NumVal(v.s, tab) IN n.c = "val" /\ n.v.t = 18 /\ SubSeq(n.v.s, 5, 8) = << 0, 0, 0, 0 >>

NaNBytes == << 1, 0, 0, 0, 0, 0, 248, 127 >>
IsNaNBytes(b) == /\ b[8] % 128 = 127 /\ b[7] >= 240
                 /\ ~(b[7] = 240 /\ \A i \in 1..6 : b[i] = 0)

RECURSIVE Mean(_, _)
RECURSIVE MeanSeq(_, _)
\* the members of an object or array as elements
MeanSeq(e, tab) ==
  LET ms == TLCEval([i \in 1..Len(e) |-> Mean(e[i].v, tab)])
  IN  IF \E i \in 1..Len(e) : ms[i].c = "err" \/ ~NulFree(e[i].k) THEN Err
      ELSE IF \E i \in 1..Len(e) : ms[i].c = "any" THEN Unspec
      ELSE Val(MkV(3, <<>>, <<>>, TLCEval([i \in 1..Len(e) |-> Elem(e[i].k, ms[i].v)])))

Wrapped(e, tab) ==
  LET k == e[1].k   x == e[1].v   alone == Len(e) = 1
      strs(a) == Member(x.e, a).j = "str"
      one(r) == IF r.c = "err" THEN r ELSE IF alone THEN r ELSE Unspec
  IN
  CASE k \in {A("$minKey"), A("$maxKey")} ->
         IF alone /\ x.j = "num" /\ x.s = << 49 >> THEN Val(Scalar(IF k = A("$minKey") THEN 255 ELSE 127, <<>>)) ELSE Unspec
    [] k = A("$undefined") -> IF alone /\ x.j = "true" THEN Val(Scalar(6, <<>>)) ELSE Unspec
    [] k = A("$oid") -> IF x.j # "str" THEN Err
                        ELSE LET h == HexOf(x.s) IN one(IF h.ok /\ Len(h.b) = 12 THEN Val(Scalar(7, h.b)) ELSE Err)
    [] k = A("$symbol") -> IF x.j # "str" THEN Err ELSE one(Val(Scalar(14, x.s)))
    [] k = A("$numberDouble") -> IF x.j # "str" THEN Err
                                 ELSE one(CASE x.s = A("NaN") -> Val(Scalar(1, NaNBytes))
                                            [] x.s = A("Infinity") -> Val(Scalar(1, << 0, 0, 0, 0, 0, 0, 240, 127 >>))
                                            [] x.s = A("-Infinity") -> Val(Scalar(1, << 0, 0, 0, 0, 0, 0, 240, 255 >>))
                                            [] x.s = <<>> -> Err
                                            [] OTHER -> Unspec)
    [] k = A("$numberDecimal") ->
         IF x.j # "str" THEN Err
         ELSE LET d == DecOfText(x.s)
              IN  one(IF d.c = "bad" \/ ~Fits(d) THEN Err
                      ELSE IF d.c \in {"nan", "inf", "num"} /\ Exactly(d) THEN Val(MkV(19, <<>>, <<>>, <<>>) @@ [d |-> d])
                      ELSE Unspec)
    [] k = A("$date") ->
         IF x.j = "str"
         THEN LET d == DateOf(x.s)
              IN  one(IF d.ok THEN Val(Scalar(9, d.b)) ELSE IF \A i \in 1..Len(x.s) : ~IsDigit(x.s[i]) THEN Err ELSE Unspec)
         ELSE IF x.j = "obj" /\ Len(x.e) = 1 /\ x.e[1].k = A("$numberLong") /\ x.e[1].v.j = "str"
         THEN LET s == x.e[1].v.s
                  ds == IF s # <<>> /\ s[1] = 45 THEN SubSeq(s, 2, Len(s)) ELSE s
              IN  IF ds # <<>> /\ AllDigits(ds, 1, Len(ds)) /\ Len(ds) < 25 /\ (ds[1] # 48 \/ Len(ds) = 1)
                  THEN one(IF Int64Of(s).ok THEN Val(Scalar(9, Int64Of(s).b)) ELSE Err)
                  ELSE IF \A i \in 1..Len(s) : ~IsDigit(s[i]) THEN Err ELSE Unspec
         ELSE IF x.j \in {"null", "true", "false", "arr"} THEN Err
         ELSE Unspec
    [] k = A("$timestamp") ->
         IF x.j # "obj" THEN Err
         ELSE IF ~Two(x.e, A("t"), A("i")) THEN Unspec
         ELSE LET t == Member(x.e, A("t"))  i == Member(x.e, A("i"))
              IN  IF t.j # "num" \/ i.j # "num" THEN Err
                  ELSE IF U32(t, tab) /\ U32(i, tab)
                  THEN one(Val(Scalar(17, SubSeq(NumVal(i.s, tab).v.s, 1, 4) \o SubSeq(NumVal(t.s, tab).v.s, 1, 4))))
                  ELSE Err
    [] k = A("$regularExpression") ->
         IF x.j # "obj" THEN Err
         ELSE IF ~Two(x.e, A("pattern"), A("options")) THEN Unspec
         ELSE IF ~strs(A("pattern")) \/ ~strs(A("options")) THEN Err
         ELSE IF ~NulFree(Member(x.e, A("pattern")).s) \/ ~NulFree(Member(x.e, A("options")).s) THEN Err
         ELSE one(Val(MkV(11, Member(x.e, A("pattern")).s, Member(x.e, A("options")).s, <<>>)))
    [] k = A("$dbPointer") ->
         IF x.j # "obj" THEN Err
         ELSE IF ~Two(x.e, A("$ref"), A("$id")) THEN Unspec
         ELSE IF ~strs(A("$ref")) THEN Err
         ELSE IF ~strs(A("$id")) THEN (IF Member(x.e, A("$id")).j = "obj" THEN Unspec ELSE Err)
         ELSE LET h == HexOf(Member(x.e, A("$id")).s)
              IN  one(IF h.ok /\ Len(h.b) = 12 THEN Val(MkV(12, Member(x.e, A("$ref")).s, h.b, <<>>)) ELSE Err)
    [] k = A("$binary") ->
         IF x.j # "obj" THEN (IF x.j = "str" THEN Unspec ELSE Err)
         ELSE IF ~Two(x.e, A("base64"), A("subType")) THEN Unspec
         ELSE IF ~strs(A("base64")) \/ ~strs(A("subType")) THEN Err
         ELSE LET d == Base64Of(Member(x.e, A("base64")).s)  st == HexOf(Member(x.e, A("subType")).s)
              IN  IF ~(st.ok /\ Len(st.b) = 1) THEN (IF \E i \in 1..Len(Member(x.e, A("subType")).s) : ~IsHex(Member(x.e, A("subType")).s[i]) THEN Err ELSE Unspec)
                  ELSE IF d.ok THEN one(Val(MkV(5, d.b, st.b, <<>>)))
                  ELSE IF \E i \in 1..Len(Member(x.e, A("base64")).s) : B64Val[Member(x.e, A("base64")).s[i]] < 0 /\ Member(x.e, A("base64")).s[i] \notin {61, 10, 13} THEN Err
                  ELSE Unspec
    [] k = A("$code") ->
         IF x.j # "str" THEN Err
         ELSE IF alone THEN Val(Scalar(13, x.s))
         ELSE IF e[2].k # A("$scope") THEN Unspec
         ELSE IF e[2].v.j # "obj" THEN Err
         ELSE LET sc == Mean(e[2].v, tab)
              IN  IF sc.c = "err" THEN Err
                  ELSE IF sc.c = "any" \/ Len(e) > 2 THEN Unspec
                  ELSE IF sc.v.t # 3 THEN Unspec
                  ELSE Val(MkV(15, x.s, <<>>, sc.v.e))

Mean(t, tab) ==
  CASE t.j = "str" -> Val(Scalar(2, t.s))
    [] t.j = "true" -> Val(Scalar(8, << 1 >>))
    [] t.j = "false" -> Val(Scalar(8, << 0 >>))
    [] t.j = "null" -> Val(Scalar(10, <<>>))
    [] t.j = "num" -> NumVal(t.s, tab)
    [] t.j = "arr" -> LET m == MeanSeq(t.e, tab) IN IF m.c = "val" THEN Val(MkV(4, <<>>, <<>>, m.v.e)) ELSE m
    [] t.j = "obj" -> IF t.e # <<>> /\ t.e[1].k \in Wrappers
                      THEN (IF ~(\A i \in 1..Len(t.e) : NulFree(t.e[i].k)) THEN Unspec ELSE Wrapped(t.e, tab))
                      ELSE IF t.e # <<>> /\ t.e[1].k \in MaybeWrappers THEN Unspec
                      ELSE MeanSeq(t.e, tab)

(***************************************************************************)
(* Comparing with a BSON value that the code holds                         *)
(***************************************************************************)
Widen(v) == IF v.t = 16 THEN Scalar(18, SignExtend(v.s)) ELSE v
RECURSIVE SameVal(_, _)
SameElems(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].k = b[i].k /\ SameVal(a[i].v, b[i].v)
\* a: the meaning of a text, b: what the code has
SameVal(a, b0) ==
  LET b == Widen(b0) IN
  /\ a.t = b.t
  /\ CASE a.t \in {3, 15} -> a.s = b.s /\ SameElems(a.e, b.e)
       [] a.t = 4 -> (Len(a.e) = Len(b.e) /\ \A i \in 1..Len(a.e) : SameVal(a.e[i].v, b.e[i].v))
       [] a.t = 19 -> a.d = DecOfBytes(b.s)
       [] a.t = 1 -> a.s = b.s \/ (IsNaNBytes(a.s) /\ IsNaNBytes(b.s))
       [] OTHER -> a.s = b.s /\ a.o = b.o

\* a BSON value as if it were the meaning of a text
RECURSIVE Lift(_)
Lift(v) == CASE v.t = 16 -> Widen(v)
             [] v.t = 19 -> v @@ [d |-> DecOfBytes(v.s)]
             [] v.t \in {3, 4, 15} -> MkV(v.t, v.s, v.o, TLCEval([i \in 1..Len(v.e) |-> Elem(v.e[i].k, Lift(v.e[i].v))]))
             [] OTHER -> v

\* documents that extended JSON can carry
RECURSIVE Expressible(_)
ExprSeq(es, nested) == /\ ~nested \/ es = <<>> \/ es[1].k \notin (Wrappers \cup MaybeWrappers)
                       /\ \A i \in 1..Len(es) : ValidUtf8(es[i].k, 1) /\ Expressible(es[i].v)
Expressible(v) ==
  CASE v.t \in {2, 13, 14} -> ValidUtf8(v.s, 1)
    [] v.t = 11 -> ValidUtf8(v.s, 1) /\ ValidUtf8(v.o, 1)
    [] v.t = 12 -> ValidUtf8(v.s, 1)
    [] v.t = 3 -> ExprSeq(v.e, TRUE)
    [] v.t = 15 -> ValidUtf8(v.s, 1) /\ ExprSeq(v.e, TRUE)
    [] v.t = 4 -> \A i \in 1..Len(v.e) : Expressible(v.e[i].v)
    [] v.t = 19 -> CanonicalDec(v.s)
    [] OTHER -> TRUE

\* same tree, numbers compared by value
RECURSIVE SameTree(_, _, _)
SameTree(a, b, tab) ==
  /\ a.j = b.j
  /\ CASE a.j = "num" -> NumVal(a.s, tab) = NumVal(b.s, tab)
       [] OTHER -> a.s = b.s
  /\ Len(a.e) = Len(b.e)
  /\ \A i \in 1..Len(a.e) : a.e[i].k = b.e[i].k /\ SameTree(a.e[i].v, b.e[i].v, tab)
=============================================================================
