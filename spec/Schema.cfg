SPECIFICATION Spec
CONSTANT MaxSize = 8
INVARIANTS SameNumbers Dense ParentsFirst
CHECK_DEADLOCK FALSE
