SPECIFICATION Spec
CONSTANTS
  Actors = 3
  Steps = 3
INVARIANT Counted
PROPERTY OneAtATime
CHECK_DEADLOCK FALSE
