CONSTANTS
  Key <- KeyDistinct
  At <- AtDistinct
SPECIFICATION Spec
INVARIANT Closed
PROPERTIES Ends Grows
CHECK_DEADLOCK FALSE
