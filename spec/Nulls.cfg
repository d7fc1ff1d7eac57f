SPECIFICATION Spec
CONSTANTS
  N = 5
  Gen = TRUE
  Splits <- Quick
INVARIANT InPlace
CHECK_DEADLOCK FALSE
