---------------------------- MODULE GoConvModel -----------------------------
(* Every Go value of a palette (all kinds, boundaries of every integer       *)
(* width, nested sequences and maps), emitted for replay; the laws of the    *)
(* conversion are checked on all of them.                                    *)
EXTENDS GoConv, Json
CONSTANTS MaxNest
VARIABLES g, n
FF == 255
Z8 == <<0,0,0,0,0,0,0,0>>
N1 == <<FF,FF,FF,FF,FF,FF,FF,FF>>
Bounds == { Z8, <<1,0,0,0,0,0,0,0>>, N1, <<127,0,0,0,0,0,0,0>>, <<128,0,0,0,0,0,0,0>>, <<FF,0,0,0,0,0,0,0>>,
  <<128,FF,FF,FF,FF,FF,FF,FF>>, <<FF,127,0,0,0,0,0,0>>, <<0,128,FF,FF,FF,FF,FF,FF>>, <<FF,FF,0,0,0,0,0,0>>,
  <<FF,FF,FF,127,0,0,0,0>>, <<254,FF,FF,127,0,0,0,0>>, <<0,0,0,128,0,0,0,0>>, <<0,0,0,128,FF,FF,FF,FF>>, <<FF,FF,FF,127,FF,FF,FF,FF>>,
  <<FF,FF,FF,FF,0,0,0,0>>, <<0,0,0,0,1,0,0,0>>, <<FF,FF,FF,FF,FF,FF,FF,127>>, <<0,0,0,0,0,0,0,128>>, <<1,0,0,0,0,0,0,128>>, <<254,FF,FF,FF,FF,FF,FF,FF>> }
Z(s, i) == \A j \in i..8 : s[j] = 0
F(s, i) == \A j \in i..8 : s[j] = FF
Fits(k, s) ==
  CASE k = "int8" -> (Z(s, 2) /\ s[1] < 128) \/ (F(s, 2) /\ s[1] >= 128)
    [] k = "int16" -> (Z(s, 3) /\ s[2] < 128) \/ (F(s, 3) /\ s[2] >= 128)
    [] k = "int32" -> (Z(s, 5) /\ s[4] < 128) \/ (F(s, 5) /\ s[4] >= 128)
    [] k = "uint8" -> Z(s, 2)  [] k = "uint16" -> Z(s, 3)  [] k = "uint32" -> Z(s, 5)
    [] OTHER -> TRUE
Ints == { G(k, s, <<>>, <<>>) : k \in {"int8", "int16", "int32", "int64", "int", "uint8", "uint16", "uint32", "uint", "uint64"}, s \in Bounds }
Leaves == { x \in Ints : Fits(x.g, x.s) }
   \cup { G("bool", <<b>>, <<>>, <<>>) : b \in {0, 1} }
   \cup { G("float64", s, <<>>, <<>>) : s \in Bounds }
   \cup { G("string", s, <<>>, <<>>) : s \in { <<>>, <<97>>, <<0>>, <<195, 188>> } }
   \cup { G("time", s, <<>>, <<>>) : s \in { Z8, <<1,0,0,0,0,0,0,0>>, N1, <<0,0,0,0,1,0,0,0>>, <<24,252,FF,FF,FF,FF,FF,FF>> } }
   \cup { G("timestamp", s, <<>>, <<>>) : s \in { Z8, <<1,0,0,0,2,0,0,0>>, N1 } }
   \cup { G(k, <<>>, <<>>, <<>>) : k \in {"nil", "unsupported", "failing", "nildoc", "nilvalue", "badreader", "seq", "map", "mapii", "mapss", "doc", "reader", "elements", "values", "marshaler"} }
   \cup { G(k, <<>>, <<>>, << Elem(<<48>>, Scalar(16, <<7, 0, 0, 0>>)) >>) : k \in {"doc", "reader", "elements", "values", "marshaler", "value"} }
   \cup { G("value", <<>>, <<>>, << Elem(<<48>>, NullV) >>) }
Wrap(k, x) == G(k, <<>>, <<>>, << [k |-> IF k = "seq" THEN <<>> ELSE <<107>>, v |-> x] >>)
Init == g \in Leaves /\ n = 0
Next == n < MaxNest /\ n' = n + 1 /\ \E k \in {"seq", "map", "mapii"} : g' = Wrap(k, g)
Spec == Init /\ [][Next]_<< g, n >>
Emit == PrintT("CASE " \o ToJson([g |-> g, strict |-> Convertible(g)]))

\* a canonical representative, and the laws
RECURSIVE Canon(_)
Canon(x) == CASE ~Convertible(x) /\ x.g \notin {"map", "mapii", "seq"} -> NullV
              [] x.g = "nil" -> NullV
              [] x.g \in {"map", "mapii", "mapss"} -> MkV(3, <<>>, <<>>, [i \in 1..Len(x.e) |-> Elem(x.e[i].k, Canon(x.e[i].v))])
              [] x.g = "seq" -> MkV(4, <<>>, <<>>, [i \in 1..Len(x.e) |-> Elem(Digits(i - 1), Canon(x.e[i].v))])
              [] x.g \in IntKinds32 -> Scalar(16, SubSeq(x.s, 1, 4))
              [] x.g \in IntKindsAny \cup {"int64"} -> Scalar(18, x.s)
              [] x.g = "bool" -> Scalar(8, x.s) [] x.g = "float64" -> Scalar(1, x.s) [] x.g = "string" -> Scalar(2, x.s)
              [] x.g = "time" -> Scalar(9, x.s) [] x.g = "timestamp" -> Scalar(17, x.s)
              [] x.g \in {"doc", "reader", "elements", "marshaler"} -> MkV(3, <<>>, <<>>, x.e)
              [] x.g = "values" -> MkV(4, <<>>, <<>>, x.e)
              [] x.g = "value" -> x.e[1].v
Total == Represents(Canon(g), g)
\* what is representable survives the trip there and back
Back == (g.g \in {"bool", "float64", "string", "time", "timestamp", "int32", "int64"}) => SameG(Export(Canon(g)), g)
=============================================================================
