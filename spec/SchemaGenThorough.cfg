SPECIFICATION GSpec
CONSTANT MaxSize = 8
CHECK_DEADLOCK FALSE
