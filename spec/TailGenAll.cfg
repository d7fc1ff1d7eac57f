SPECIFICATION GSpec
CONSTANT Pairs = {1, 2, 3, 4}
INVARIANT Decided
CHECK_DEADLOCK FALSE
