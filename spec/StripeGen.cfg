SPECIFICATION GSpec
CONSTANT Pairs = {}
INVARIANT Decided
CHECK_DEADLOCK FALSE
