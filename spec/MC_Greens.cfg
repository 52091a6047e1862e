SPECIFICATION Spec
CONSTANTS
  MaxX = 2
  MaxB = 2
  MaxW = 2
INVARIANT Laws
CHECK_DEADLOCK FALSE
