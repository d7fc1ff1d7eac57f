SPECIFICATION TraceSpec
CONSTANTS
  Readers = {}
  Streams = 0
  MaxHandles = 0
CHECK_DEADLOCK TRUE
