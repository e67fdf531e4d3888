SPECIFICATION Spec
CONSTANT Threads = {1, 2, 3, 4}
CHECK_DEADLOCK FALSE
INVARIANTS Reached Conserved Bounded Exclusive
