CONSTANTS
  Workers = {1, 2}
  MaxMessages = 3
  Limits <- MCLimits
  MaxCrashes = 1
  MaxFaults = 1
  Locked = TRUE
  FileFirst = FALSE
  Replaced = TRUE
  RemovedLast = TRUE
SPECIFICATION Spec
INVARIANTS Kept_ NothingLost Once Readable InOrder NoHang
PROPERTIES IsInbox
CHECK_DEADLOCK FALSE
