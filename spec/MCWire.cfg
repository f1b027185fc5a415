SPECIFICATION Spec
CONSTRAINT Case
INVARIANTS Required Typed Standard
CHECK_DEADLOCK FALSE
