------------------------------ MODULE FTDCRead ------------------------------
(***************************************************************************)
(* What a stream of bytes means as FTDC: the chunks before the first error, *)
(* and how it ends ("ok", "err", or "loose" where the format does not say). *)
(* Decompression is the environment's: z[i] is the decompressed data of the *)
(* i-th document of the stream ([ok, p]).                                   *)
(***************************************************************************)
EXTENDS FTDC

One8 == << 1, 0, 0, 0, 0, 0, 0, 0 >>
BadVarint == [ok |-> FALSE, v |-> Zero8, i |-> 0]
RECURSIVE Mul128(_, _)
Mul128(b, k) == IF k = 0 THEN b ELSE Mul128(MulAdd(b, 128, 0), k - 1)
\* the varint at b[i]; k groups of seven bits precede it
RECURSIVE UnVarint(_, _, _, _)
UnVarint(b, i, k, acc) ==
  IF i > Len(b) \/ k > 9 \/ (k = 9 /\ b[i] > 1) THEN BadVarint
  ELSE LET v == TLCEval(Add64(acc, Mul128(<< b[i] % 128 >> \o Zeros(7), k)))
       IN  IF b[i] < 128 THEN [ok |-> TRUE, v |-> v, i |-> i + 1] ELSE UnVarint(b, i + 1, k + 1, v)

\* left deltas from b[i]; z zeros of a run are still to come
RECURSIVE Cells(_, _, _, _, _)
Cells(b, i, z, left, acc) ==
  IF left = 0 THEN [ok |-> TRUE, tight |-> i = Len(b) + 1 /\ z = Zero8, c |-> acc]
  ELSE IF z # Zero8 THEN Cells(b, i, TLCEval(Sub64(z, One8)), left - 1, Append(acc, Zero8))
  ELSE LET d == UnVarint(b, i, 0, Zero8)
       IN  IF ~d.ok THEN [ok |-> FALSE, tight |-> FALSE, c |-> <<>>]
           ELSE IF d.v # Zero8 THEN Cells(b, d.i, Zero8, left - 1, Append(acc, d.v))
           ELSE LET r == UnVarint(b, d.i, 0, Zero8)
                IN  IF ~r.ok THEN [ok |-> FALSE, tight |-> FALSE, c |-> <<>>]
                    ELSE Cells(b, r.i, r.v, left - 1, Append(acc, Zero8))

RECURSIVE Sums(_, _)
Sums(acc, ds) == IF ds = <<>> THEN acc ELSE Sums(Append(acc, Add64(acc[Len(acc)], ds[1])), Tail(ds))

Chunk(s, fs) == [s |-> s, fs |-> fs]
\* fs[j][i]: metric i of sample j
ChunkOf(p) ==
  LET d == Decode(p) IN
  IF ~d.ok THEN Chunk("err", <<>>)
  ELSE LET f == TLCEval(Flat(d.r))
           r == SubSeq(p, d.n + 1, Len(p))
       IN
       IF Len(r) < 8 THEN Chunk("err", <<>>)
       ELSE IF r[3] # 0 \/ r[4] # 0 \/ r[1] + 256 * r[2] # Len(f) THEN Chunk("err", <<>>)
       ELSE LET n  == IF r[7] # 0 \/ r[8] # 0 THEN 70000 ELSE r[5] + 256 * r[6]
                cs == Cells(SubSeq(r, 9, Len(r)), 1, Zero8, Len(f) * n, <<>>)
            IN  IF ~cs.ok THEN Chunk("err", <<>>)
                ELSE LET cols == TLCEval([i \in 1..Len(f) |-> Sums(<< f[i].b >>, SubSeq(cs.c, (i - 1) * n + 1, i * n))])
                     IN  Chunk(IF cs.tight THEN "ok" ELSE "loose",
                               [j \in 1..(n + 1) |-> [i \in 1..Len(f) |-> [f[i] EXCEPT !.b = cols[i][j]]]])

NullV == Scalar(10, <<>>)
First(es, k) == LET ix == {i \in 1..Len(es) : es[i].k = k}
                IN  IF ix = {} THEN NullV ELSE es[CHOOSE i \in ix : \A j \in ix : i <= j].v
HasK(es, k) == \E i \in 1..Len(es) : es[i].k = k
IsNum(n, v) == CASE v.t = 16 -> v.s = << n, 0, 0, 0 >>
                 [] v.t = 18 -> v.s = << n >> \o Zeros(7)
                 [] v.t = 1 -> IF n = 0 THEN v.s = Zero8 \/ v.s = Zeros(7) \o << 128 >> ELSE v.s = << 0, 0, 0, 0, 0, 0, 240, 63 >>
                 [] OTHER -> FALSE

\* metas: the metadata in force for each chunk
RECURSIVE ReadFrom(_, _, _, _, _, _)
ReadFrom(b, p, z, i, acc, meta) ==
  LET left == Len(b) - p + 1
      End(s) == [s |-> s, chunks |-> acc]
  IN
  IF left = 0 THEN End("ok")
  ELSE IF left < 4 THEN End("err")
  ELSE LET l == I32(b, p) IN
    IF l < 5 \/ l > left THEN End("err")
    ELSE LET d == ParseDoc(b, p, p + l - 1) IN
      IF ~d.ok THEN End("loose")
      ELSE LET ty == First(d.r, A("type"))
               da == First(d.r, A("data"))
           IN
           IF IsNum(0, ty) THEN ReadFrom(b, p + l, z, i + 1, acc, << d.r >>)
           ELSE IF ~IsNum(1, ty) THEN ReadFrom(b, p + l, z, i + 1, acc, meta)
           ELSE IF ~HasK(d.r, A("data")) \/ da.t # 5 THEN End("err")
           ELSE IF Len(da.s) < 4 \/ ~z[i].ok THEN End("err")
           ELSE LET c == ChunkOf(z[i].p) IN
                IF c.s = "ok" THEN ReadFrom(b, p + l, z, i + 1, Append(acc, [fs |-> c.fs, meta |-> meta]), meta)
                ELSE End(c.s)
ReadStream(b, z) == ReadFrom(b, 1, z, 1, <<>>, <<>>)
=============================================================================
