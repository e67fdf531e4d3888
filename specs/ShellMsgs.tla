------------------------------ MODULE ShellMsgs ------------------------------
(* The document in every message of WireModel.                               *)
EXTENDS WireModel
EmitX == k = 0 => PrintT("CASE " \o ToJson([k |-> "extract", b |-> b, doc |-> <<>>, t |-> 0, req |-> FALSE]))
=============================================================================
