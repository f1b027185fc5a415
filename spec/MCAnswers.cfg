SPECIFICATION Spec
INVARIANTS Decided
CONSTRAINT Case
CHECK_DEADLOCK FALSE
