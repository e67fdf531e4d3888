----------------------------- MODULE JSONModel ------------------------------
(***************************************************************************)
(* Explores every JSON text over a small alphabet whose proper prefixes    *)
(* can all still become JSON, and every extended JSON wrapper with every   *)
(* payload of a palette.  Each text is emitted and given to the code.      *)
(***************************************************************************)
EXTENDS ExtJSON, Json
CONSTANTS MaxLen, Alphabet, Seeds, MaxTail
VARIABLES text, left
vars == << text, left >>

WStr(s) == << 34 >> \o FlattenSeq([i \in 1..Len(s) |->
             IF s[i] \in {34, 92} THEN << 92, s[i] >>
             ELSE IF s[i] < 32 THEN << 92, 117, 48, 48 >> \o ToHex(<< s[i] >>)
             ELSE << s[i] >>]) \o << 34 >>
RECURSIVE Write(_)
Joined(ps) == FlattenSeq([i \in 1..Len(ps) |-> IF i = 1 THEN ps[i] ELSE << 44 >> \o ps[i]])
Write(t) ==
  CASE t.j = "str" -> WStr(t.s)
    [] t.j = "num" -> t.s
    [] t.j = "obj" -> << 123 >> \o Joined([i \in 1..Len(t.e) |-> WStr(t.e[i].k) \o << 58 >> \o Write(t.e[i].v)]) \o << 125 >>
    [] t.j = "arr" -> << 91 >> \o Joined([i \in 1..Len(t.e) |-> Write(t.e[i].v)]) \o << 93 >>
    [] OTHER -> A(t.j)

(* wrappers x payloads *)
S(x) == T("str", A(x), <<>>)
N(x) == T("num", A(x), <<>>)
O(ms) == T("obj", <<>>, ms)
M1(k, v) == Mem(A(k), v)
Hex24 == "5df67fa01cbe64e51b598f18"
Plain == { S(""), S("x"), S(Hex24), N("1"), N("-1"), N("1.5"), N("4294967296"), T("null", <<>>, <<>>), T("true", <<>>, <<>>), T("arr", <<>>, <<>>), O(<<>>) }
Pairs(a, b) == { << M1(a, x), M1(b, y) >> : x, y \in {S(""), S("x"), S("00"), S("AQI="), S(Hex24), N("1"), N("0"), N("-1"), N("4294967295"), N("4294967296"), T("null", <<>>, <<>>), O(<<>>)} }
General == Plain
  \cup { S("1970-01-01T00:00:00Z"), S("1969-12-31T23:59:59.999Z"), S("2000-02-29T12:00:00.5+05:30"), S("1999-02-29T00:00:00Z"), S("NaN"), S("Infinity"), S("-Infinity"), S("1.0"), S("1E+6111"), S("1E+6145"), S("-0"), S("0E-6176") }
  \cup { O(<< M1("$numberLong", x) >>) : x \in {S("5"), S("-5"), S("9223372036854775807"), S("9223372036854775808"), S(""), S("x"), N("5")} }
  \cup { O(<< M1(k, v) >>) : k \in {"t", "pattern", "$ref", "base64", "$oid"}, v \in {S("x"), N("1"), O(<<>>)} }
Matching(w) ==
  CASE w = A("$timestamp") -> { O(p) : p \in Pairs("t", "i") \cup Pairs("i", "t") }
    [] w = A("$regularExpression") -> { O(p) : p \in Pairs("pattern", "options") }
    [] w = A("$dbPointer") -> { O(p) : p \in Pairs("$ref", "$id") }
    [] w = A("$binary") -> { O(p) : p \in Pairs("base64", "subType") \cup Pairs("subType", "base64") }
    [] OTHER -> {}
WrapTrees == UNION { { O(<< Mem(w, p) >>) : p \in General \cup Matching(w) } : w \in Wrappers }
  \cup { O(<< Mem(w, p), M1(k, v) >>) : w \in Wrappers, p \in {S("x"), S(Hex24), N("1")}, k \in {"$scope", "x"},
                                        v \in {N("1"), O(<<>>), O(<< M1("$oid", S(Hex24)) >>), O(<< M1("a", O(<< M1("$oid", N("1")) >>)) >>)} }
Contexts(t) == { Write(O(<< M1("k", t) >>)), Write(T("arr", <<>>, << Mem(<<>>, t) >>)), Write(t) }

Texts == { Write(T("arr", <<>>, << Mem(<<>>, t) >>)) : t \in WrapTrees } \cup UNION { Contexts(O(<< Mem(w, p) >>)) : w \in Wrappers, p \in Plain }

Init == \/ text = <<>> /\ left = MaxLen
        \/ \E s \in Seeds : text = A(s) /\ left = MaxTail
        \/ text \in Texts /\ left = 0
Emit(b) == PrintT("CASE " \o ToJson([b |-> b]))
Viable(b) == ParseJSON(b).ok \/ ParseJSON(b).eof
Next == /\ left > 0
        /\ Viable(text)
        /\ \E ch \in Alphabet : text' = Append(text, ch)
        /\ left' = left - 1
Spec == Init /\ [][Next]_vars

Emitted == Emit(text)
Table == << >>
\* what is written denotes the same tree
WriteParse == LET p == ParseJSON(text) IN (p.ok /\ ~Lone(p.r)) => (ParseJSON(Write(p.r)).ok /\ ParseJSON(Write(p.r)).r = p.r)
\* once a text cannot become JSON any more, no extension is JSON
Hopeless == ~Viable(text) => \A ch \in Alphabet : ~Viable(Append(text, ch))
=============================================================================
