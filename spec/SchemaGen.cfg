SPECIFICATION GSpec
CONSTANT MaxSize = 6
CHECK_DEADLOCK FALSE
