SPECIFICATION Spec
CONSTANTS
 Threads = {1, 2}
 MaxOps = 2
 Alone = FALSE
 OpKinds = {"add", "bad", "resolve", "reset"}
 KindSizes <- KS
INVARIANTS Conserved Bounded Exclusive Complete ExclusiveAlone
