SPECIFICATION Spec
CONSTANTS
  MaxItems = 2
  Modes = {"reader", "file", "follow", "samples"}
  Kinds = {"a", "b", "bad", "long", "blank", "nil"}
CHECK_DEADLOCK FALSE
INVARIANT Laws
INVARIANT Emit
