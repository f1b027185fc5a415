CONSTANTS
  Keys = {1, 2, 3, 4}
  Channels = {1}
  Instance = "Moving"
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Edge
INVARIANT StepsAgree
PROPERTIES Delivered Handed1 Own Separate Failing
CHECK_DEADLOCK FALSE
