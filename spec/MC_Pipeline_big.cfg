SPECIFICATION Spec
CONSTANTS
  Order = 3
  MaxLost = 1
  Vals = {1}
INVARIANTS Consistent Definition
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
