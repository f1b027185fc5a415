CONSTANT Start = 1
SPECIFICATION TSpec
CONSTRAINT Report
CHECK_DEADLOCK FALSE
