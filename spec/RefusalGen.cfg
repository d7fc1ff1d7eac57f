SPECIFICATION GSpec
CONSTANTS MaxRows = 2
          Lives = {"b", "gbg", "bbg", "gb"}
INVARIANT Sane
CHECK_DEADLOCK FALSE
