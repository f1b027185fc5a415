CONSTANTS
  Start = 1
  Addresses = {1, 2, 3, 4}
  Kinds = {"local", "hint", "down"}
SPECIFICATION Spec
INVARIANTS Right Bounded
PROPERTIES Once Ends_
CHECK_DEADLOCK FALSE
