SPECIFICATION Spec
CONSTANTS
 Threads = {1, 2}
 MaxOps = 1
 Alone = FALSE
 OpKinds = {"add", "bad", "resolve"}
 KindSizes <- KS
INVARIANTS Conserved Bounded Exclusive Complete ExclusiveAlone
PROPERTIES AllReturn Ends
