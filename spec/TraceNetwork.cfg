SPECIFICATION TSpec
CONSTANTS
  Keys <- TKeys
  Channels = {1, 2, 3}
CONSTRAINT Report
CHECK_DEADLOCK FALSE
