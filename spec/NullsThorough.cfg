SPECIFICATION Spec
CONSTANTS
  N = 6
  Gen = TRUE
  Splits <- Thorough
INVARIANT InPlace
CHECK_DEADLOCK FALSE
