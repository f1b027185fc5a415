CONSTANTS
  Key <- KeyDistinct
  At <- AtShared
SPECIFICATION Spec
INVARIANT Closed
PROPERTIES Ends Grows
CHECK_DEADLOCK FALSE
