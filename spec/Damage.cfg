SPECIFICATION Spec
CONSTANTS
  Readers = {r1, r2}
  Columns = {1, 2}
  MaxRows = 3
  MaxCap = 2
  MemoryBound = 64
INVARIANTS TypeOK UnhurtReads UnhurtOpens InFile
PROPERTY FailedStays
CHECK_DEADLOCK FALSE
