SPECIFICATION TraceSpec
CONSTANTS
  Readers = {0}
  Columns = {}
  MaxRows = 0
  MaxCap = 0
  MemoryBound = 64
INVARIANTS UnhurtReads UnhurtOpens InFile
CHECK_DEADLOCK TRUE
