------------------------------- MODULE Collect -------------------------------
(* The collection of metrics into FTDC files (x/ftdc/metrics).               *)
(*                                                                           *)
(* A collection reads items: lines of JSON from a reader or a file that may  *)
(* be followed as it grows, or samples of the process and of the collectors  *)
(* the caller supplies. What it has taken is held, and is moved to the next  *)
(* of the files prefix.0, prefix.1, ... when the flush interval passes, when *)
(* the source ends, or (samples) when the caller cancels the collection.     *)
(* A file is written once and holds at least one document. A collection ends *)
(* well only when everything that was taken is in the files.                 *)
EXTENDS Naturals, Sequences, SequencesExt

\* the kinds of items; what may become of one
Documents == {"a", "b", "c", "d"}
Fates(kind) ==
  CASE kind \in Documents -> {"doc"}
    [] kind = "long" -> {"doc", "refuse"}      \* a line of more than 64 KB
    [] kind = "blank" -> {"skip", "refuse"}    \* a line with nothing on it
    [] kind \in {"bad", "panic"} -> {"refuse"} \* a line that is no document; a collector that panics
    [] kind = "nil" -> {"doc", "refuse"}       \* a collector with nothing to report

\* how a source ends: nothing is left | it fails | it has not ended (yet)
Ends == {"eof", "fail", "open"}

C0(mode) == [mode |-> mode, todo |-> <<>>, held |-> <<>>, files |-> <<>>, src |-> "open", canceled |-> FALSE, out |-> "run"]
Give(st, item) == [st EXCEPT !.todo = Append(@, item)]
End(st, how) == [st EXCEPT !.src = how]
Cancel(st) == [st EXCEPT !.canceled = TRUE]

CanTake(st) == st.out = "run" /\ st.todo # <<>>
Take(st, fate) ==
  LET x == Head(st.todo) IN
  [st EXCEPT !.todo = Tail(@), !.held = IF fate = "doc" THEN Append(@, x.id) ELSE @, !.out = IF fate = "refuse" THEN "err" ELSE @]
CanFlush(st) == st.held # <<>>
Flush(st) == [st EXCEPT !.files = Append(@, st.held), !.held = <<>>]

\* the collection may return without an error
EndsWell(st) == /\ st.out = "run" /\ st.held = <<>>
                /\ IF st.mode = "samples" THEN st.canceled ELSE st.todo = <<>> /\ st.src = "eof" /\ ~st.canceled
\* the collection may return an error
EndsBadly(st) == \/ st.out = "err"
                 \/ st.src = "fail" /\ st.todo = <<>>
                 \/ st.canceled /\ st.mode # "samples"
Flat(files) == FlattenSeq(files)
=============================================================================
