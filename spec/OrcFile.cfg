SPECIFICATION Spec
CONSTANTS
  Readers = {r1, r2}
  MaxRows = 3
  MaxCap = 2
INVARIANTS TypeOK NothingUnreported OnlyComplete PositionsInFile
PROPERTY Isolation
CHECK_DEADLOCK FALSE
