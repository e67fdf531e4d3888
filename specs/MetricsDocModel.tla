--------------------------- MODULE MetricsDocModel ---------------------------
(* A counter of the runtime that grows, and collections of it: what is known *)
(* of the counter at the last collection is always true, deltas after a      *)
(* total add up, and the names of the fields are their own.                  *)
EXTENDS MetricsDoc
CONSTANTS MaxCount, MaxSteps
VARIABLES real, last, known, exact, sum, n
vars == << real, last, known, exact, sum, n >>
Init == real = 0 /\ last = 0 /\ known = [lo |-> 0, hi |-> 0] /\ exact = 0 /\ sum = 0 /\ n = 0
Grow(by) == real + by <= MaxCount /\ real' = real + by /\ UNCHANGED << last, known, exact, sum, n >>
\* a collection in the middle of growing: it is called at real, sees at, and returns at end
Collect(kind) == /\ n < MaxSteps /\ n' = n + 1
  /\ \E end \in real..MinOf(MaxCount, real + 2) : \E at \in real..end :
     /\ real' = end /\ last' = at
     /\ CASE kind = "total" -> known' = AfterTotal(known, real, end, at) /\ exact' = at /\ sum' = 0
          [] kind = "delta" -> known' = AfterDelta(known, real, end, at - last) /\ sum' = sum + (at - last) /\ exact' = exact
          [] kind = "other" -> known' = AfterOther(known, real, end, 0) /\ sum' = sum + (at - last) /\ exact' = exact
Next == (\E by \in 1..2 : Grow(by)) \/ \E kind \in {"total", "delta", "other"} : Collect(kind)
Spec == Init /\ [][Next]_vars
Known == Sane(known) /\ known.lo <= last /\ last <= known.hi
AddUp == exact + sum = last
OwnNames == \A t \in 1..Len(Tables) : \A i, j \in 1..Len(Tables[t]) :
   i # j => Tables[t][i][1] # Tables[t][j][1] /\ Tables[t][i][2] # Tables[t][j][2]
=============================================================================
