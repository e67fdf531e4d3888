----------------------------- MODULE FTDCModel ------------------------------
(* Every short series of samples over a palette of shapes and boundary       *)
(* values; the laws of the format are checked and each series is emitted.    *)
EXTENDS FTDC, Json
CONSTANTS MaxSamples, Wide2
VARIABLES shape, samples
vars == << shape, samples >>
F == 255
Z == Zero8
One == << 1, 0, 0, 0, 0, 0, 0, 0 >>
Neg == << F, F, F, F, F, F, F, F >>
Hi == << F, F, F, F, F, F, F, 127 >>
Lo == << 0, 0, 0, 0, 0, 0, 0, 128 >>
Val1(t) == CASE t = 1  -> {Z, << 0, 0, 0, 0, 0, 0, 240, 63 >>, Lo, << 0, 0, 0, 0, 0, 0, 248, 127 >>}
             [] t = 8  -> {<< 0 >>, << 1 >>}
             [] t = 9  -> {Z, Neg, Hi}
             [] t = 16 -> {<< 0, 0, 0, 0 >>, << 0, 0, 0, 128 >>, << F, F, F, 127 >>}
             [] t = 17 -> {Z, << 1, 0, 0, 0, 2, 0, 0, 0 >>, Neg}
             [] t = 18 -> {Z, One, Lo, Hi}
Val2(t) == IF Wide2 THEN Val1(t) ELSE CASE t = 1 -> {Z, << 0, 0, 0, 0, 0, 0, 240, 63 >>} [] t = 8 -> Val1(8) [] t = 9 -> {One, Hi}
             [] t = 16 -> {<< 0, 0, 0, 0 >>, << F, F, F, F >>} [] t = 17 -> {<< 1, 0, 0, 0, 2, 0, 0, 0 >>, Neg} [] t = 18 -> {Z, One}
\* a shape is a document whose scalars of metric type are holes
H(t) == Scalar(t, << 0 >>)
D(es) == MkV(3, <<>>, <<>>, es)
L(vs) == ArrV(vs)
k(c) == << c >>
E(c, v) == Elem(k(c), v)
Single == { << E(97, H(t)) >> : t \in MetricTypes }
Pair   == { << E(97, H(t)), E(98, H(u)) >> : t \in MetricTypes, u \in MetricTypes }
Nested == { <<>>, << E(97, D(<<>>)), E(98, L(<<>>)) >>,
  << E(97, Scalar(2, << 120 >>)), E(98, H(18)) >>,
  << E(97, D(<< E(98, H(16)) >>)), E(99, H(18)) >>,
  << E(97, L(<< H(17), H(8) >>)) >>,
  << E(97, D(<< E(98, D(<< E(99, H(18)) >>)), E(100, D(<< E(99, H(9)) >>)) >>)) >>,
  << E(97, L(<< D(<< E(98, H(17)) >>), D(<< E(98, H(18)) >>) >>)) >>,
  << E(97, L(<< L(<< H(18) >>), Scalar(10, <<>>), H(16) >>)) >>,
  << Elem(<<>>, H(18)), Elem(<<>>, D(<< Elem(<<>>, H(1)) >>)) >>,
  << E(97, H(18)), E(97, H(18)) >> }
Shapes == Single \cup Pair \cup Nested
RECURSIVE Fill(_, _)
FillV(v, w) == CASE v.t \in {3, 4} -> {[v EXCEPT !.e = es] : es \in Fill(v.e, w)}
                    [] v.t \in MetricTypes -> {Scalar(v.t, b) : b \in (IF w THEN Val1(v.t) ELSE Val2(v.t))}
                    [] OTHER -> {v}
Fill(es, w) == IF es = <<>> THEN {<<>>}
                  ELSE {<< Elem(es[1].k, x) >> \o r : x \in FillV(es[1].v, w), r \in Fill(Tail(es), w)}
Filled(sh) == IF sh \in Single THEN Fill(sh, TRUE) ELSE Fill(sh, FALSE)
Init == shape \in Shapes /\ samples \in {<< d >> : d \in Filled(shape)}
Next == Len(samples) < MaxSamples /\ UNCHANGED shape /\ \E d \in Filled(shape) : samples' = Append(samples, d)
Spec == Init /\ [][Next]_vars
n == Len(samples)
One1(kind, max, cap) == [kind |-> kind, max |-> max, cap |-> cap, meta |-> <<>>, samples |-> samples]
Emit == /\ PrintT("CASE " \o ToJson(One1("base", n - 1, n)))
        /\ (n > 1) => PrintT("CASE " \o ToJson(One1("batch", 1, 1)))
        /\ (n > 2) => PrintT("CASE " \o ToJson(One1("sdynamic", 2, 2)))

\* the format determines the samples: decoding the payload by its own grammar gives the metrics back
RECURSIVE MulPow2(_, _)
MulPow2(b, sh) == IF sh = 0 THEN b ELSE MulPow2(MulAdd(b, 128, 0), sh - 7)
RECURSIVE UnVarint(_, _, _, _)   \* little-endian value and length of the varint at i
UnVarint(b, i, sh, acc) ==
  LET v == Add64(acc, MulPow2(<< b[i] % 128 >> \o Zeros(7), sh))
  IN  IF b[i] < 128 THEN [v |-> v, i |-> i + 1] ELSE UnVarint(b, i + 1, sh + 7, v)
RECURSIVE Cells(_, _, _, _, _)
Cells(b, i, z, left, acc) ==
  IF left = 0 THEN [ok |-> i = Len(b) + 1 /\ z = Z, c |-> acc]
  ELSE IF z # Z THEN Cells(b, i, Sub64(z, One), left - 1, Append(acc, Z))
  ELSE LET d == UnVarint(b, i, 0, Z)
       IN  IF d.v = Z THEN LET r == UnVarint(b, d.i, 0, Z) IN Cells(b, r.i, r.v, left - 1, Append(acc, Z))
           ELSE Cells(b, d.i, Z, left - 1, Append(acc, d.v))
RECURSIVE Sums(_, _)
Sums(a, ds) == IF ds = <<>> THEN << a >> ELSE << a >> \o Sums(Add64(a, ds[1]), Tail(ds))
Decodes ==
  LET p  == Payload(samples)
      e  == EncDoc(samples[1])
      fs == FlatAll(samples)
      m  == Len(fs[1])
      r  == SubSeq(p, Len(e) + 9, Len(p))
      cs == Cells(r, 1, Z, m * (n - 1), <<>>)
  IN  /\ SubSeq(p, 1, Len(e)) = e
      /\ cs.ok
      /\ \A i \in 1..m : Sums(fs[1][i].b, SubSeq(cs.c, (i - 1) * (n - 1) + 1, i * (n - 1))) = [j \in 1..n |-> fs[j][i].b]
\* no two shapes that differ in what is shown share a schema, and the flat view has every metric once
Laws == /\ \A j \in 1..n : Schema(samples[j]) = Schema(samples[1])
        /\ Len(FlatDoc(FlatAll(samples), 1, FALSE)) = Len(Flat(samples[1]))
=============================================================================
