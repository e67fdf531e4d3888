-------------------------------- MODULE FTDC ---------------------------------
(***************************************************************************)
(* Full time diagnostic data capture: which metrics a document has, the    *)
(* byte-exact chunk payload for a series of samples, and what every        *)
(* reading view shows of it.  Documents are sequences of elements as in    *)
(* BSON.tla; a metric is [k: flat key, t: type, b: 8 bytes].               *)
(***************************************************************************)
EXTENDS BSON, Num

Dot == << 46 >>
MetricTypes == {1, 8, 9, 16, 17, 18}

\* the 64-bit quantity that is stored for a scalar of metric type
Wide(v) == CASE v.t = 8  -> (IF v.s[1] = 0 THEN Zeros(8) ELSE << 1, 0, 0, 0, 0, 0, 0, 0 >>)
             [] v.t = 16 -> SignExtend(v.s)
             [] OTHER    -> v.s
Metric(k, t, b, p) == [k |-> k, t |-> t, b |-> b, p |-> p]   \* p: 1 seconds, 2 increment of a timestamp

RECURSIVE FlatOf(_, _)
RECURSIVE FlatValue(_, _)
\* p is <<path>> or <<>>: an empty key is a path of its own
Under(p, k) == TLCEval(IF p = <<>> THEN << k >> ELSE << p[1] \o Dot \o k >>)
FlatOf(p, es) == FlattenSeq(TLCEval([i \in 1..Len(es) |-> FlatValue(Under(p, es[i].k), es[i].v)]))
FlatValue(p, v) ==
  CASE v.t = 3 -> FlatOf(p, v.e)
    [] v.t = 4 -> FlattenSeq(TLCEval([i \in 1..Len(v.e) |-> FlatValue(Under(p, Digits(i - 1)), v.e[i].v)]))
    [] v.t = 17 -> << Metric(p[1], 17, SubSeq(v.s, 5, 8) \o Zeros(4), 1),
                      Metric(p[1] \o A(".inc"), 17, SubSeq(v.s, 1, 4) \o Zeros(4), 2) >>
    [] v.t \in MetricTypes -> << Metric(p[1], v.t, Wide(v), 0) >>
    [] OTHER -> <<>>
Flat(es) == FlatOf(<<>>, es)

SchemaF(f) == [i \in 1..Len(f) |-> << f[i].k, f[i].t >>]
TypesF(f)  == [i \in 1..Len(f) |-> f[i].t]
Schema(es) == SchemaF(Flat(es))
Types(es)  == TypesF(Flat(es))

\* what the structured view keeps of a document
RECURSIVE Keep(_)
KeepV(v) == [v EXCEPT !.e = Keep(v.e)]
Keep(es) == LET ks == SelectSeq(es, LAMBDA x : x.v.t \in MetricTypes \cup {3, 4})
            IN  TLCEval([i \in 1..Len(ks) |-> Elem(ks[i].k, IF ks[i].v.t \in {3, 4} THEN KeepV(ks[i].v) ELSE ks[i].v)])
RECURSIVE Renum(_)   \* array keys are positions
Renum(es) == TLCEval([i \in 1..Len(es) |-> Elem(es[i].k, IF es[i].v.t = 3 THEN [es[i].v EXCEPT !.e = Renum(@)]
                                                ELSE IF es[i].v.t = 4 THEN [es[i].v EXCEPT !.e = IndexKeys(Renum(@))]
                                                ELSE es[i].v)])

(***************************************************************************)
(* The payload                                                             *)
(***************************************************************************)
RECURSIVE AddRec(_, _, _, _)
AddRec(a, b, carry, acc) ==
  IF Len(acc) = Len(a) THEN acc
  ELSE LET t == a[Len(acc) + 1] + b[Len(acc) + 1] + carry IN AddRec(a, b, t \div 256, Append(acc, t % 256))
Add64(a, b) == AddRec(a, b, 0, <<>>)
Sub64(a, b) == AddRec(a, [i \in 1..8 |-> 255 - b[i]], 1, <<>>)

RECURSIVE VarintRec(_, _)
VarintRec(bs, acc) ==
  LET d == DivRec(bs, Len(bs), 0, <<>>, 128)
      q == TrimB(d.q)
  IN  IF q = <<>> THEN Append(acc, d.r) ELSE VarintRec(q, Append(acc, d.r + 128))
Varint(bs) == VarintRec(TrimB(bs), <<>>)
VarintN(n) == Varint(LE32(n))

Zero8 == Zeros(8)
RECURSIVE Rle(_, _, _, _)
Rle(ds, i, z, acc) ==
  IF i > Len(ds) THEN (IF z > 0 THEN acc \o << 0 >> \o VarintN(z - 1) ELSE acc)
  ELSE IF ds[i] = Zero8 THEN Rle(ds, i + 1, z + 1, acc)
  ELSE Rle(ds, i + 1, 0, (IF z > 0 THEN acc \o << 0 >> \o VarintN(z - 1) ELSE acc) \o Varint(ds[i]))

\* samples: a nonempty sequence of documents with one schema
Payload(samples) ==
  LET n  == Len(samples)
      fs == TLCEval([j \in 1..n |-> Flat(samples[j])])
      m  == Len(fs[1])
      ds == TLCEval(FlattenSeq([i \in 1..m |-> [j \in 1..(n - 1) |-> Sub64(fs[j + 1][i].b, fs[j][i].b)]]))
  IN  EncDoc(samples[1]) \o LE32(m) \o LE32(n - 1) \o Rle(ds, 1, 0, <<>>)

(***************************************************************************)
(* Views of a chunk.  fs: the flat samples; known: as the code is known to *)
(* read timestamps (finding ftdc-timestamp: the seconds of the first       *)
(* timestamp of a chunk are taken as milliseconds).                        *)
(***************************************************************************)
FlatAll(samples) == [j \in 1..Len(samples) |-> Flat(samples[j])]
Val(fs, j, i, known) ==
  IF known /\ fs[j][i].p = 1
  THEN Add64(MulAdd(fs[1][i].b, 1000, 0), Sub64(fs[j][i].b, fs[1][i].b))
  ELSE fs[j][i].b
Typed(t, b) == CASE t = 8  -> Scalar(8, << IF b = Zero8 THEN 0 ELSE 1 >>)
                 [] t = 16 -> Scalar(16, SubSeq(b, 1, 4))
                 [] t = 17 -> Scalar(18, b)
                 [] OTHER  -> Scalar(t, b)
FlatDoc(fs, j, known) == [i \in 1..Len(fs[j]) |-> Elem(fs[j][i].k, Typed(fs[j][i].t, Val(fs, j, i, known)))]

RECURSIVE TsKnown(_, _)
TsKnownV(v1, vj) ==
  CASE vj.t \in {3, 4} -> [vj EXCEPT !.e = TsKnown(v1.e, vj.e)]
    [] vj.t = 17 -> LET t0 == SubSeq(v1.s, 5, 8) \o Zeros(4)
                        tj == SubSeq(vj.s, 5, 8) \o Zeros(4)
                    IN  [vj EXCEPT !.s = SubSeq(vj.s, 1, 4) \o SubSeq(Add64(MulAdd(t0, 1000, 0), Sub64(tj, t0)), 1, 4)]
    [] OTHER -> vj
TsKnown(e1, ej) == TLCEval([i \in 1..Len(ej) |-> Elem(ej[i].k, TsKnownV(e1[i].v, ej[i].v))])
\* the samples have one shape
StructDoc(samples, j, known) == Renum(IF known THEN TsKnown(Keep(samples[1]), Keep(samples[j])) ELSE Keep(samples[j]))

ArrV(vs) == MkV(4, <<>>, <<>>, [j \in 1..Len(vs) |-> Elem(Digits(j - 1), vs[j])])
MatrixDoc(fs, known) ==
  LET ix == SelectSeq([i \in 1..Len(fs[1]) |-> i], LAMBDA i : fs[1][i].p # 2)
  IN  [q \in 1..Len(ix) |-> LET i == ix[q] IN
         Elem(fs[1][i].k, ArrV([j \in 1..Len(fs) |->
           IF fs[1][i].p = 1 THEN Scalar(17, SubSeq(fs[j][i + 1].b, 1, 4) \o SubSeq(Val(fs, j, i, known), 1, 4))
           ELSE Typed(fs[1][i].t, Val(fs, j, i, known))]))]
SeriesDoc(fs, known) ==
  [i \in 1..Len(fs[1]) |-> Elem(fs[1][i].k, ArrV([j \in 1..Len(fs) |-> Typed(fs[1][i].t, Val(fs, j, i, known))]))]
MetricList(fs, known) ==
  [i \in 1..Len(fs[1]) |-> [k |-> fs[1][i].k, v |-> [j \in 1..Len(fs) |-> Val(fs, j, i, known)]]]

RECURSIVE Parts(_, _)
Parts(s, n) == IF s = <<>> THEN <<>> ELSE IF Len(s) <= n THEN << s >>
               ELSE << SubSeq(s, 1, n) >> \o Parts(SubSeq(s, n + 1, Len(s)), n)
=============================================================================
