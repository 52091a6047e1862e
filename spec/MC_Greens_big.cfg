SPECIFICATION Spec
CONSTANTS
  MaxX = 4
  MaxB = 4
  MaxW = 4
INVARIANT Laws
CHECK_DEADLOCK FALSE
