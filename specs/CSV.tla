-------------------------------- MODULE CSV ---------------------------------
(***************************************************************************)
(* FTDC data as comma separated values and back.  Texts are byte sequences. *)
(* What the standard library makes of a text as a floating point number is  *)
(* given: fl is a sequence of [s: text, b: 8 bytes].                        *)
(***************************************************************************)
EXTENDS FTDC

LF == 10
Quote == 34
Comma == 44

(* records of a text: [ok, recs: those before the first malformed one] *)
RECURSIVE Rec(_, _, _, _, _, _)
\* st: 0 start of a line, 1 start of a field, 2 in a bare field, 3 in quotes, 4 after the closing quote
Rec(b, i, st, f, rec, recs) ==
  IF i > Len(b) THEN
    CASE st = 0 -> [ok |-> TRUE, recs |-> recs]
      [] st = 3 -> [ok |-> FALSE, recs |-> recs]
      [] OTHER -> [ok |-> TRUE, recs |-> Append(recs, Append(rec, f))]
  ELSE LET x == b[i] IN
    CASE st = 0 /\ x = LF -> Rec(b, i + 1, 0, <<>>, <<>>, recs)
      [] st \in {0, 1} /\ x = Quote -> Rec(b, i + 1, 3, <<>>, rec, recs)
      [] st = 3 /\ x = Quote /\ i < Len(b) /\ b[i + 1] = Quote -> Rec(b, i + 2, 3, Append(f, Quote), rec, recs)
      [] st = 3 /\ x = Quote -> Rec(b, i + 1, 4, f, rec, recs)
      [] st = 3 -> Rec(b, i + 1, 3, TLCEval(Append(f, x)), rec, recs)
      [] x = Comma -> Rec(b, i + 1, 1, <<>>, TLCEval(Append(rec, f)), recs)
      [] x = LF -> Rec(b, i + 1, 0, <<>>, <<>>, TLCEval(Append(recs, Append(rec, f))))
      [] st = 4 \/ x = Quote -> [ok |-> FALSE, recs |-> recs]
      [] OTHER -> Rec(b, i + 1, 2, TLCEval(Append(f, x)), rec, recs)
Records(b) == Rec(b, 1, 0, <<>>, <<>>, <<>>)

(* numbers *)
Signless(s) == IF s # <<>> /\ s[1] = 43 /\ ~(Len(s) > 1 /\ s[2] \in {43, 45}) THEN Tail(s) ELSE s
IntLike(s) == LET d == IF s # <<>> /\ s[1] = 45 THEN Tail(s) ELSE s IN d # <<>> /\ AllDigits(d, 1, Len(d))
IntCell(s) == LET u == Signless(s) IN IF IntLike(u) THEN Int64Of(u) ELSE [ok |-> FALSE, b |-> Zero8]
Float(fl, s) == LET ix == {i \in 1..Len(fl) : fl[i].s = s}
                IN  IF ix = {} THEN [ok |-> FALSE, b |-> Zero8] ELSE [ok |-> TRUE, b |-> fl[CHOOSE i \in ix : TRUE].b]
IsNaN(b) == /\ b[8] % 128 = 127 /\ b[7] >= 240
            /\ (b[7] % 16 # 0 \/ \E i \in 1..6 : b[i] # 0)

(***************************************************************************)
(* From CSV: every record that fits the header is a sample of its numbers;  *)
(* a record of another length is the header of what follows, which has to   *)
(* have that length.                                                        *)
(***************************************************************************)
RowDoc(fl, header, r) ==
  LET cell(i) == IF IntCell(r[i]).ok THEN << Elem(header[i], Scalar(18, IntCell(r[i]).b)) >>
                 ELSE IF Float(fl, r[i]).ok THEN << Elem(header[i], Scalar(1, Float(fl, r[i]).b)) >>
                 ELSE <<>>
  IN  FlattenSeq([i \in 1..Len(r) |-> cell(i)])
RECURSIVE Rows(_, _, _, _, _)
Rows(fl, header, changed, rs, acc) ==
  IF rs = <<>> THEN [ok |-> TRUE, docs |-> acc]
  ELSE IF Len(rs[1]) = Len(header) THEN Rows(fl, header, FALSE, Tail(rs), Append(acc, RowDoc(fl, header, rs[1])))
  ELSE IF changed THEN [ok |-> FALSE, docs |-> acc]
  ELSE Rows(fl, rs[1], TRUE, Tail(rs), acc)
FromCSV(b, fl) ==
  LET p == TLCEval(Records(b)) IN
  IF p.recs = <<>> THEN [ok |-> FALSE, docs |-> <<>>]
  ELSE LET r == Rows(fl, p.recs[1], FALSE, Tail(p.recs), <<>>) IN [r EXCEPT !.ok = @ /\ p.ok]

(***************************************************************************)
(* To CSV: a header of the keys, then a record per sample.  Chunks are      *)
(* sequences of flat samples.  A change of the number of metrics is an      *)
(* error, or starts another file.                                           *)
(***************************************************************************)
Blank(r) == r = <<>> \/ r = << <<>> >>      \* nothing, or one empty field: an empty line
KeysOf(fs) == [i \in 1..Len(fs[1]) |-> fs[1][i].k]
\* files: sequences of lines; a line is [h: header or <<>>, q, j: chunk and sample]
RECURSIVE Lines(_, _, _, _, _)
Lines(cs, q, n, split, files) ==
  IF q > Len(cs) THEN [ok |-> TRUE, files |-> files]
  ELSE LET k == Len(cs[q][1])
           head == << [h |-> TRUE, q |-> q, j |-> 1] >>
           body == [j \in 1..Len(cs[q]) |-> [h |-> FALSE, q |-> q, j |-> j]]
           more(x) == IF files = <<>> THEN << x >> ELSE [files EXCEPT ![Len(files)] = @ \o x]
       IN
       IF n # 0 /\ n # k /\ ~split THEN [ok |-> FALSE, files |-> files]
       ELSE IF n # 0 /\ n # k THEN Lines(cs, q + 1, k, split, Append(files, head \o body))
       ELSE IF n = 0 THEN Lines(cs, q + 1, k, split, more(head \o body))
       ELSE Lines(cs, q + 1, k, split, more(body))
ToCSV(cs, split) == Lines(cs, 1, 0, split, <<>>)

CellOK(fl, m, b, s) ==
  CASE m.t = 1 -> Float(fl, s).ok /\ (Float(fl, s).b = b \/ (IsNaN(b) /\ IsNaN(Float(fl, s).b)))
    [] m.t = 9 -> DateOf(s).ok => DateOf(s).b = b       \* years of more than four digits have no agreed form
    [] OTHER -> IntCell(s).ok /\ IntCell(s).b = b
LineOK(fl, cs, l, r) ==
  IF l.h THEN r = KeysOf(cs[l.q])
  ELSE /\ Len(r) = Len(cs[l.q][l.j])
       /\ \A i \in 1..Len(r) : \E known \in BOOLEAN : CellOK(fl, cs[l.q][l.j][i], Val(cs[l.q], l.j, i, known), r[i])
LineRec(cs, l) == IF l.h THEN KeysOf(cs[l.q]) ELSE cs[l.q][l.j]
\* the text of a file says exactly these lines
FileOK(fl, cs, lines, text) ==
  LET p == TLCEval(Records(text))
      ls == TLCEval(SelectSeq(lines, LAMBDA l : ~(LineRec(cs, l) = <<>> \/ (l.h /\ Blank(KeysOf(cs[l.q]))))))
  IN  p.ok /\ Len(p.recs) = Len(ls) /\ \A i \in 1..Len(ls) : LineOK(fl, cs, ls[i], p.recs[i])
=============================================================================
