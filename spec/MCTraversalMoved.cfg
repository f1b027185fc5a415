CONSTANTS
  Key <- KeyMoved
  At <- AtDistinct
SPECIFICATION Spec
INVARIANT Closed
PROPERTIES Ends Grows
CHECK_DEADLOCK FALSE
