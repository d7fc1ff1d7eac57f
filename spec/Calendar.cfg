SPECIFICATION Spec
CONSTANT LastYear = 9999
INVARIANTS Formula Epoch1970 Cycle
CHECK_DEADLOCK FALSE
