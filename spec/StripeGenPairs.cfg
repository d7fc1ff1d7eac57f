SPECIFICATION GSpec
CONSTANT Pairs = {"string", "timestamp", "boolean"}
INVARIANT Decided
CHECK_DEADLOCK FALSE
