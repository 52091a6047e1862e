SPECIFICATION Spec
CONSTANTS
  MaxTw = 4
  Vals = {0, 1, 2, 5}
INVARIANT Laws
CHECK_DEADLOCK FALSE
