SPECIFICATION Spec
CONSTANTS
  Actors = 5
  Steps = 14
INVARIANT Counted
CHECK_DEADLOCK FALSE
