SPECIFICATION Spec
CONSTANTS
 Threads = {1, 2}
 MaxOps = 3
 Alone = TRUE
 OpKinds = {"add", "bad", "resolve"}
 KindSizes <- KSAlone
INVARIANTS Conserved Bounded Exclusive Complete ExclusiveAlone
