SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Edge
INVARIANTS OnlyValid Served
PROPERTY Independent
CHECK_DEADLOCK FALSE
