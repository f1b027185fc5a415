SPECIFICATION TSpec
CONSTANTS
  Keys = {}
  Channels = {1, 2, 3}
CONSTRAINT Report
CHECK_DEADLOCK FALSE
