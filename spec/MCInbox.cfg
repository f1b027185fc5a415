CONSTANTS
  Receivers = {"r1", "r2"}
  Channels = {"c1", "c2"}
  Msgs = {1, 2}
  MaxStored = 4
  Limits <- MCLimits
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Edge
PROPERTIES Conserved Isolated
CHECK_DEADLOCK FALSE
