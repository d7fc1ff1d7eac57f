SPECIFICATION Spec
CONSTANT Every = TRUE
CHECK_DEADLOCK FALSE
