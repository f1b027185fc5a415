CONSTANTS
  Workers = {1, 2}
  Keys = {1, 2}
  MaxOps = 3
  MaxCrashes = 1
  MaxFaults = 1
  Locked = TRUE
  Replaced = FALSE
  Compared = TRUE
SPECIFICATION Spec
INVARIANTS Readable Gone Indexed Snapshot
PROPERTIES IsRouter Newest
CHECK_DEADLOCK FALSE
