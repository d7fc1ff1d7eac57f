SPECIFICATION GSpec
CONSTANTS MaxRows = 3
          Lives = {"b", "gbg", "bbg", "gb", "bg", "ggbgb"}
INVARIANT Sane
CHECK_DEADLOCK FALSE
