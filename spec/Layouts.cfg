SPECIFICATION Spec
CONSTANTS
  Sim = FALSE
  Wide = FALSE
INVARIANTS PlansOk
CHECK_DEADLOCK FALSE
