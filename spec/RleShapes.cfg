SPECIFICATION Spec
CONSTANT Every = FALSE
CHECK_DEADLOCK FALSE
