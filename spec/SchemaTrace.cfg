SPECIFICATION TraceSpec
CONSTANT MaxSize = 0
CHECK_DEADLOCK TRUE
