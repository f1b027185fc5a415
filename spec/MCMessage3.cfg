SPECIFICATION Spec
CONSTANT Changes = 3
VIEW View
CONSTRAINT Case
INVARIANTS Readable Authentic Private Single
CHECK_DEADLOCK FALSE
