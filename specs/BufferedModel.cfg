SPECIFICATION Spec
CONSTANTS
 Threads = {1, 2}
 MaxOps = 2
 Alone = FALSE
 OpKinds = {"add", "resolve"}
 KindSizes <- KSB
INVARIANTS Conserved Bounded Exclusive Complete ExclusiveAlone
