------------------------------ MODULE TraceText -----------------------------
(* Recorded conversions between Decimal128 / ObjectID values and text.      *)
EXTENDS ExtJSON, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
vars == << c, l >>
Report(ok, what, exp, got) ==
  IF ok THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([case |-> c, what |-> what, exp |-> exp, got |-> got]))

\* x: [b (16 bytes), s (String()), perr, p (bytes from parsing s)]
CheckDec(x) ==
  LET d == DecOfBytes(x.b)
  IN  /\ Report(x.panic = "", "panic", "", x.panic)
      /\ (x.panic = "" /\ d.c # "odd") =>
          /\ Report(DecOfText(x.s) = d, "text of a decimal", d, x.s)
          /\ Report(x.perr = "" /\ DecOfBytes(x.p) = d /\ (CanonicalDec(x.b) => x.p = x.b \/ d.c = "nan"), "decimal read back", x.b, x.p)

\* x: [s, perr, p]
CheckParse(x) ==
  LET d == DecOfText(x.s)
  IN  CASE x.panic # "" -> Report(FALSE, "panic", "", x.panic)
        [] d.c = "bad" \/ (d.c = "num" /\ ~Fits(d)) -> Report(x.perr # "", "accepted decimal text", "error", x.p)
        [] d.c \in {"nan", "inf", "num"} /\ Exactly(d) ->
             Report(x.perr = "" /\ DecOfBytes(x.p) = d, "decimal from text", d, x.p)
        [] d.c = "num" -> x.perr = "" => Report(SameNumber(d, DecOfBytes(x.p)), "decimal from text", d, x.p)
        [] OTHER -> TRUE

IsOidText(s) == Len(s) = 24 /\ HexOf(s).ok
CheckOid(x) ==
  /\ Report(x.hex = ToHex(x.b), "hex", ToHex(x.b), x.hex)
  /\ Report(x.str = A("ObjectID(") \o << 34 >> \o ToHex(x.b) \o << 34, 41 >>, "string", ToHex(x.b), x.str)
  /\ Report(x.json = << 34 >> \o ToHex(x.b) \o << 34 >>, "json", ToHex(x.b), x.json)
  /\ Report(x.zero = (\A i \in 1..12 : x.b[i] = 0), "zero", x.b, x.zero)
  /\ Report(x.back = x.b /\ x.jback = x.b, "read back", x.b, << x.back, x.jback >>)
CheckOidHex(x) ==
  /\ Report(x.panic = "", "panic", "", x.panic)
  /\ Report((x.err = "") = IsOidText(x.s), "hex accepted", IsOidText(x.s), x.err)
  /\ x.err = "" => Report(x.p = HexOf(x.s).b, "id from hex", x.s, x.p)
  /\ Report(x.must = (x.err = ""), "MustObjectIDFromHex", x.err, x.must)
CheckOidJSON(x) ==
  LET t == ParseJSON(x.s)
      str == IF ~t.ok THEN << 0 >>
             ELSE IF t.r.j = "str" THEN t.r.s
             ELSE IF t.r.j = "obj" /\ Cardinality({i \in 1..Len(t.r.e) : t.r.e[i].k = A("$oid")}) = 1 /\ Member(t.r.e, A("$oid")).j = "str" THEN Member(t.r.e, A("$oid")).s
             ELSE << 0 >>
      loose == t.ok /\ (Lone(t.r) \/ ~ValidUtf8(x.s, 1) \/ (t.r.j = "obj" /\ Cardinality({i \in 1..Len(t.r.e) : t.r.e[i].k = A("$oid")}) > 1))
  IN  /\ Report(x.panic = "", "panic", "", x.panic)
      /\ IF Len(x.s) = 12 THEN Report(x.err = "" /\ x.p = x.s, "id from 12 bytes", x.s, x.p)
         ELSE loose \/ (/\ Report((x.err = "") = IsOidText(str), "id accepted", IsOidText(str), x.err)
                        /\ x.err = "" => Report(x.p = HexOf(str).b, "id from json", x.s, x.p))
\* identifiers made by several goroutines at once
CheckFresh(x) ==
  /\ Report(Cardinality({x.ids[i] : i \in 1..Len(x.ids)}) = Len(x.ids), "identifiers are not unique", Len(x.ids), Cardinality({x.ids[i] : i \in 1..Len(x.ids)}))
  /\ Report(x.timeok, "identifier times", x.t0, x.t1)
Check(x) == CASE x.op = "dec" -> CheckDec(x) [] x.op = "parse" -> CheckParse(x) [] x.op = "oid" -> CheckOid(x)
              [] x.op = "oidhex" -> CheckOidHex(x) [] x.op = "oidjson" -> CheckOidJSON(x) [] x.op = "fresh" -> CheckFresh(x)
Init == c \in 1..Len(Cases) /\ l = 0
Next == l = 0 /\ l' = 1 /\ Check(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
