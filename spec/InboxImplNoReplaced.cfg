CONSTANTS
  Workers = {1, 2}
  MaxMessages = 3
  Limits <- MCLimits
  MaxCrashes = 1
  MaxFaults = 1
  Locked = TRUE
  FileFirst = TRUE
  Replaced = FALSE
  RemovedLast = TRUE
SPECIFICATION Spec
INVARIANTS Kept_ NothingLost Once Readable InOrder NoHang
PROPERTIES IsInbox
CHECK_DEADLOCK FALSE
