SPECIFICATION MCSpec
CONSTANTS
  Keys = {1, 2, 3}
  Messages = {1, 2, 3}
INVARIANTS Possible Strangers
CONSTRAINT Few
CHECK_DEADLOCK FALSE
