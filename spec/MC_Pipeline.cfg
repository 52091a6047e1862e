SPECIFICATION Spec
CONSTANTS
  Order = 2
  MaxLost = 2
  Vals = {1, 3}
INVARIANTS Consistent Definition
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
