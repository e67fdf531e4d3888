SPECIFICATION Spec
CONSTANTS
 Threads = {1, 2}
 MaxOps = 2
 Alone = TRUE
 OpKinds = {"add", "meta", "resolve"}
 KindSizes <- KSAlone
INVARIANTS Conserved Bounded Exclusive Complete ExclusiveAlone
