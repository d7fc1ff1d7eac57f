SPECIFICATION Spec
CONSTANTS
  MaxBytes = 9
  Size = 3
  Piece = 4
INVARIANTS SizesOk NothingLost PlaceOk
CHECK_DEADLOCK FALSE
