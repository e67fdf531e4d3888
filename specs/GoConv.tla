------------------------------- MODULE GoConv -------------------------------
(***************************************************************************)
(* Conversion between Go values and BSON values.                            *)
(* A Go value is [g: kind, s: bytes, o: bytes, e: Seq([k, v])]; integers    *)
(* carry their 8-byte two's complement form, maps and sequences their       *)
(* members in e, and values that wrap BSON (documents, readers, elements)   *)
(* carry the wrapped value in e as [k, v: BSON value].                      *)
(***************************************************************************)
EXTENDS BSON

NullV == Scalar(10, <<>>)
IntKinds32 == {"int8", "int16", "int32", "uint8", "uint16"}
\* either width may hold these, as long as the number is the same
IntKindsAny == {"int", "uint", "uint32", "uint64"}
SignExt8(s) == IF Len(s) = 8 THEN s
               ELSE s \o [i \in 1..(8 - Len(s)) |-> IF s[Len(s)] >= 128 THEN 255 ELSE 0]
Overflows(g) == g.g \in {"uint", "uint64"} /\ g.s[8] >= 128

\* can it be converted at all (strict conversion fails otherwise)
RECURSIVE Convertible(_)
Convertible(g) ==
  CASE g.g \in {"unsupported", "failing", "nildoc", "nilvalue", "badreader"} -> FALSE
    [] Overflows(g) -> FALSE
    [] g.g \in {"map", "mapii", "seq"} -> \A i \in 1..Len(g.e) : Convertible(g.e[i].v)
    [] OTHER -> TRUE

\* does BSON value v represent Go value g?  (lenient: what cannot be converted is null)
RECURSIVE Represents(_, _)
SeqRep(v, g) == /\ v.t = 4 /\ Len(v.e) = Len(g.e)
                /\ \A i \in 1..Len(g.e) : Represents(v.e[i].v, g.e[i].v)
MapRep(v, g) == /\ v.t = 3 /\ Len(v.e) = Len(g.e)
                /\ \A i \in 1..Len(g.e) : \E j \in 1..Len(v.e) :
                      v.e[j].k = g.e[i].k /\ Represents(v.e[j].v, g.e[i].v)
Represents(v, g) ==
  CASE g.g \in {"unsupported", "failing", "nildoc", "nilvalue", "badreader", "nil"} -> v = NullV
    [] Overflows(g) -> v = NullV
    [] g.g = "bool" -> v = Scalar(8, g.s)
    [] g.g \in IntKinds32 -> v.t = 16 /\ SignExt8(v.s) = g.s
    [] g.g = "int64" -> v = Scalar(18, g.s)
    [] g.g = "duration" -> v = Scalar(18, g.s)
    [] g.g \in IntKindsAny -> v.t \in {16, 18} /\ SignExt8(v.s) = g.s
    [] g.g \in {"float32", "float64"} -> v = Scalar(1, g.s)
    [] g.g = "string" -> v = Scalar(2, g.s)
    [] g.g = "time" -> v = Scalar(9, g.s)
    [] g.g = "timestamp" -> v = Scalar(17, g.s)
    [] g.g = "seq" -> SeqRep(v, g)
    [] g.g \in {"map", "mapii", "mapss"} -> MapRep(v, g)
    [] g.g \in {"elements", "doc", "reader", "marshaler"} -> NormV(v) = NormV(MkV(3, <<>>, <<>>, g.e))
    [] g.g = "values" -> NormV(v) = NormV(MkV(4, <<>>, <<>>, g.e))
    [] g.g = "value" -> NormV(v) = NormV(g.e[1].v)
    [] OTHER -> FALSE

(***** the other direction: a BSON value as a Go value **********************)
G(k, s, o, e) == [g |-> k, s |-> s, o |-> o, e |-> e]
RECURSIVE Export(_)
LastIdx(es, k) == CHOOSE i \in 1..Len(es) : es[i].k = k /\ \A j \in (i + 1)..Len(es) : es[j].k # k
FirstPos(es, k) == CHOOSE i \in 1..Len(es) : es[i].k = k /\ \A j \in 1..(i - 1) : es[j].k # k
\* a map has one entry per key; the last element with a key wins.  Listed by first occurrence.
ExportMap(es) == LET ks == SelectSeq([i \in 1..Len(es) |-> i], LAMBDA i : FirstPos(es, es[i].k) = i)
                 IN [j \in 1..Len(ks) |-> [k |-> es[ks[j]].k, v |-> Export(es[LastIdx(es, es[ks[j]].k)].v)]]
Export(v) ==
  CASE v.t = 1 -> G("float64", v.s, <<>>, <<>>)
    [] v.t \in {2, 13, 14} -> G("string", v.s, <<>>, <<>>)
    [] v.t = 3 -> G("map", <<>>, <<>>, ExportMap(v.e))
    [] v.t = 4 -> G("seq", <<>>, <<>>, [i \in 1..Len(v.e) |-> [k |-> <<>>, v |-> Export(v.e[i].v)]])
    [] v.t = 5 -> G("bytes", v.s, <<>>, <<>>)
    [] v.t = 7 -> G("oid", v.s, <<>>, <<>>)
    [] v.t = 8 -> G("bool", v.s, <<>>, <<>>)
    [] v.t = 9 -> G("time", v.s, <<>>, <<>>)
    [] v.t = 11 -> G("regex", v.s, v.o, <<>>)
    [] v.t = 12 -> G("dbpointer", v.s, v.o, <<>>)
    [] v.t = 15 -> G("codewithscope", v.s, EncDoc(v.e), <<>>)
    [] v.t = 16 -> G("int32", SignExt8(v.s), <<>>, <<>>)
    [] v.t = 17 -> G("timestamp", v.s, <<>>, <<>>)
    [] v.t = 18 -> G("int64", v.s, <<>>, <<>>)
    [] v.t = 19 -> G("decimal", v.s, <<>>, <<>>)
    [] OTHER -> G("nil", <<>>, <<>>, <<>>)

\* equality of Go values with unordered maps
RECURSIVE SameG(_, _)
SameG(a, b) == /\ a.g = b.g /\ a.s = b.s /\ a.o = b.o /\ Len(a.e) = Len(b.e)
               /\ IF a.g = "map"
                  THEN \A i \in 1..Len(a.e) : \E j \in 1..Len(b.e) : a.e[i].k = b.e[j].k /\ SameG(a.e[i].v, b.e[j].v)
                  ELSE \A i \in 1..Len(a.e) : SameG(a.e[i].v, b.e[i].v)
=============================================================================
