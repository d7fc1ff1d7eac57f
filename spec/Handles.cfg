SPECIFICATION Spec
CONSTANTS
  Readers = {"a", "b"}
  Streams = 2
  MaxHandles = 9
INVARIANTS TypeOK Held NothingLeft
CHECK_DEADLOCK FALSE
