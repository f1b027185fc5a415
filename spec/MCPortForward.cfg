CONSTANTS Ports = {1, 2}
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Edge
INVARIANT Known
PROPERTIES Success Others Kept
CHECK_DEADLOCK FALSE
