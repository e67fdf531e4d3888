------------------------------ MODULE CSVModel ------------------------------
(* Every short text over the alphabet of CSV with numbers. *)
EXTENDS CSV, Json
CONSTANTS MaxTok
VARIABLE s
Toks == << A("a"), A(","), << 10 >>, A("\""), A("1"), A("-2.5"), A("b") >>
Init == s = <<>>
Next == Len(s) < MaxTok /\ \E i \in 1..Len(Toks) : s' = Append(s, i)
Spec == Init /\ [][Next]_s
Text == FlattenSeq([i \in 1..Len(s) |-> Toks[s[i]]])
Emit == PrintT("CASE " \o ToJson([text |-> Text]))
\* records never get lost: a sound text of n lines has at most n records
Sane == LET p == Records(Text) IN Len(p.recs) <= Len(s)
=============================================================================
