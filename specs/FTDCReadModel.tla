---------------------------- MODULE FTDCReadModel ---------------------------
(* Every small damage to the payload of a chunk between two sound chunks.   *)
EXTENDS FTDCRead, Json
CONSTANTS MaxMut, Which
VARIABLES pay, m
E1(c, v) == Elem(<< c >>, v)
I64(n) == Scalar(18, << n, 0, 0, 0, 0, 0, 0, 0 >>)
Sound == << E1(97, I64(1)) >>
Series == << << Sound, << E1(97, I64(3)) >> >>,
             << << E1(97, I64(1)), E1(98, I64(9)) >>, << E1(97, I64(1)), E1(98, I64(8)) >>, << E1(97, I64(1)), E1(98, I64(8)) >> >>,
             << << E1(97, MkV(3, <<>>, <<>>, << E1(98, Scalar(8, << 1 >>)) >>)), E1(99, Scalar(2, << 120 >>)) >>, << E1(97, MkV(3, <<>>, <<>>, << E1(98, Scalar(8, << 0 >>)) >>)), E1(99, Scalar(2, << 121 >>)) >> >>,
             << << E1(97, ArrV(<< Scalar(16, << 1, 0, 0, 0 >>), Scalar(17, << 1, 0, 0, 0, 2, 0, 0, 0 >>) >>)) >>, << E1(97, ArrV(<< Scalar(16, << 200, 0, 0, 0 >>), Scalar(17, << 1, 0, 0, 0, 3, 0, 0, 0 >>) >>)) >> >> >>
Bytes7(b) == {0, 1, 127, 128, 255, (b + 1) % 256, (b + 255) % 256} \ {b}
Init == m = 0 /\ pay \in {Payload(Series[i]) : i \in Which}
Next == /\ m < MaxMut /\ m' = m + 1
        /\ \/ \E i \in 1..Len(pay) : \E v \in Bytes7(pay[i]) : pay' = [pay EXCEPT ![i] = v]
           \/ \E i \in 0..(Len(pay) - 1) : pay' = SubSeq(pay, 1, i)
           \/ \E v \in {0, 1, 128} : pay' = Append(pay, v)
           \/ \E i \in 1..Len(pay) : pay' = SubSeq(pay, 1, i - 1) \o SubSeq(pay, i + 1, Len(pay))
Spec == Init /\ [][Next]_<< pay, m >>
Reasonable == LET d == Decode(pay) IN ~d.ok \/ Flat(d.r) # <<>>
Emit == Reasonable => PrintT("CASE " \o ToJson([pays |-> << Payload(<< Sound >>), pay, Payload(<< Sound >>) >>]))
\* an undamaged payload reads back, and judging never gets stuck
Judged == LET r == ChunkOf(pay) IN r.s \in {"ok", "err", "loose"} /\ (m = 0 => r.s = "ok")
=============================================================================
