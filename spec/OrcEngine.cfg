SPECIFICATION Spec
CONSTANTS
  Readers = {r1}
  MaxRows = 6
  MaxCap = 3
  Cut = 3
  Layouts <- SmallLayouts
INVARIANTS Delivered EndExact Progress NoEmptyStripe CutRule NothingHeldBack
PROPERTY Refines
CHECK_DEADLOCK FALSE
