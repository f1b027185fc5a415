CONSTANTS
  Keys = {}
SPECIFICATION TSpec
CONSTRAINT Report
CHECK_DEADLOCK FALSE
