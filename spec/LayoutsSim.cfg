SPECIFICATION Spec
CONSTANTS
  Sim = TRUE
  Wide = TRUE
INVARIANTS PlansOk
CHECK_DEADLOCK FALSE
