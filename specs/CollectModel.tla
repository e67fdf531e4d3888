---------------------------- MODULE CollectModel ----------------------------
(* Every short collection: what is given, when the caller waits for it to be *)
(* written, how the source ends, with flushes at any moment.                 *)
EXTENDS Collect, Json, TLC, FiniteSets
CONSTANTS MaxItems, Modes, Kinds
VARIABLES st, h, n, fated
vars == << st, h, n, fated >>
Op(o, v) == [op |-> o, v |-> v]
Init == \E m \in Modes : st = C0(m) /\ h = <<>> /\ n = 0 /\ fated = <<>>
Items(m) == IF m = "samples" THEN {"a", "b", "nil", "panic"} ELSE Kinds \ {"nil"}
GiveIt == /\ st.src = "open" /\ ~st.canceled /\ n < MaxItems
          /\ \E k \in Items(st.mode) : st' = Give(st, [id |-> n + 1, kind |-> k]) /\ h' = Append(h, Op("give", k))
          /\ n' = n + 1 /\ UNCHANGED fated
\* the caller waits until everything is in the files (only worth doing once)
Settle == /\ st.mode \in {"reader", "follow"} /\ st.src = "open" /\ ~st.canceled /\ h # <<>> /\ h[Len(h)].op = "give"
          /\ Cardinality({i \in 1..Len(h) : h[i].op = "settle"}) < 2
          /\ st.todo = <<>> /\ (st.held = <<>> \/ st.out = "err")
          /\ h' = Append(h, Op("settle", "")) /\ UNCHANGED << st, n, fated >>
EndIt == /\ st.src = "open" /\ ~st.canceled
         /\ \/ /\ st.mode \in {"reader", "file"}
               /\ \E how \in {"eof", "fail"} : (how = "fail" => st.mode = "reader") /\ st' = End(st, how) /\ h' = Append(h, Op("end", how))
            \/ /\ st.mode # "file" /\ st' = Cancel(st) /\ h' = Append(h, Op("cancel", ""))
         /\ UNCHANGED << n, fated >>
TakeIt == /\ CanTake(st)
          /\ \E f \in Fates(Head(st.todo).kind) : st' = Take(st, f) /\ fated' = Append(fated, << Head(st.todo), f >>)
          /\ UNCHANGED << h, n >>
FlushIt == CanFlush(st) /\ st.out \in {"run", "err"} /\ st' = Flush(st) /\ UNCHANGED << h, n, fated >>
Finish == /\ st.out \in {"run", "err"} /\ (st.src # "open" \/ st.canceled)
          /\ \/ EndsWell(st) /\ st' = [st EXCEPT !.out = "ok"]
             \/ EndsBadly(st) /\ st' = [st EXCEPT !.out = "failed"]
          /\ UNCHANGED << h, n, fated >>
Next == GiveIt \/ Settle \/ EndIt \/ TakeIt \/ FlushIt \/ Finish
Spec == Init /\ [][Next]_vars

(***** laws *******************************************************************)
Docs == [i \in 1..Len(SelectSeq(fated, LAMBDA x : x[2] = "doc")) |-> SelectSeq(fated, LAMBDA x : x[2] = "doc")[i][1].id]
\* everything taken is in the files or held, once, in order
Conserved == Flat(st.files) \o st.held = Docs
InOrder == \A i \in 1..(Len(Docs) - 1) : Docs[i] < Docs[i + 1]
NoEmptyFile == \A i \in 1..Len(st.files) : st.files[i] # <<>>
\* a collection that ends well has written everything it was given
Whole == st.out = "ok" => /\ st.held = <<>>
                          /\ \A i \in 1..Len(h) : h[i].op = "give" /\ h[i].v \in {"bad", "panic"} =>
                               st.mode = "samples" /\ \A j \in 1..Len(fated) : fated[j][2] # "refuse"
                          /\ st.mode # "samples" => Len(Docs) >= Cardinality({i \in 1..Len(h) : h[i].op = "give" /\ h[i].v \in Documents})
Laws == Conserved /\ InOrder /\ NoEmptyFile /\ Whole
\* one case for each script, however it is run
Emit == (h # <<>> /\ h[Len(h)].op \in {"end", "cancel"} /\ st.out \in {"run", "err"}) =>
           PrintT("CASE " \o ToJson([mode |-> st.mode, ops |-> h]))
=============================================================================
