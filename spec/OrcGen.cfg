SPECIFICATION GSpec
CONSTANTS
  Readers = {0, 1, 2, 3}
  MaxRows = 1
  MaxCap = 1
  Cut = 1
  Layouts = {}
INVARIANTS Delivered EndExact Progress
CHECK_DEADLOCK FALSE
