SPECIFICATION Spec
CONSTANTS
  Rows = 5
  Limit = 3
  MaxSize = 3
INVARIANTS SplitDoesNotMatter NoEmptyStripe NothingHeldBack
CHECK_DEADLOCK FALSE
