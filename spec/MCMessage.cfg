SPECIFICATION Spec
CONSTANT Changes = 2
VIEW View
CONSTRAINT Case
INVARIANTS Readable Authentic Private Single
CHECK_DEADLOCK FALSE
