SPECIFICATION GSpec
CONSTANT Pairs = {1, 2}
INVARIANT Decided
CHECK_DEADLOCK FALSE
