SPECIFICATION Spec
CONSTANTS
  Actors = 2
  Steps = 5
INVARIANT Counted
PROPERTY OneAtATime
CHECK_DEADLOCK FALSE
