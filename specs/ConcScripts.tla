----------------------------- MODULE ConcScripts ----------------------------
(* Every short sequence of calls, of letting the inner collector proceed and *)
(* of canceling, for every kind of concurrently used collector.              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Len0, Cmds
VARIABLES cfg, s
Kinds == {<< "B", 0, FALSE >>, << "B", 1, FALSE >>, << "B", 2, TRUE >>, << "B", 0, TRUE >>, << "SB", 1, FALSE >>, << "SB", 0, FALSE >>, << "S", 0, FALSE >>}
Has(x) == \E j \in 1..Len(s) : s[j] = x
Init == cfg \in Kinds /\ s = <<>>
Next == /\ Len(s) < Len0 /\ UNCHANGED cfg
        /\ \E x \in Cmds : /\ (x = "cancel" => cfg[1] # "S" /\ ~Has("cancel"))
                           /\ (x \in {"gate", "cancel"} /\ Len(s) = Len0 - 1) => FALSE
                           /\ (x = "gate") => Has("add") \/ Has("bad")
                           /\ s' = Append(s, x)
Spec == Init /\ [][Next]_<< cfg, s >>
Emit == (Len(s) = Len0 /\ (Has("add") \/ Has("bad"))) => PrintT("CASE " \o ToJson([kind |-> cfg[1], size |-> cfg[2], alone |-> cfg[3], cmds |-> s]))
=============================================================================
