SPECIFICATION TraceSpec
CONSTANTS
  Readers = {0, 1, 2, 3, 4, 5, 6, 7}
  MaxRows = 0
  MaxCap = 0
INVARIANTS NothingUnreported OnlyComplete
CHECK_DEADLOCK TRUE
