CONSTANTS
  Start = 1
  Addresses = {1, 2, 3}
  Kinds = {"local", "remote", "hint", "down", "garbage", "error", "unsigned", "wrong"}
SPECIFICATION Spec
INVARIANTS Right Bounded
PROPERTIES Once Ends_
CHECK_DEADLOCK FALSE
