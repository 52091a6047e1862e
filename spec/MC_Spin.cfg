SPECIFICATION Spec
CONSTANTS
  MaxTw = 2
  Vals = {0, 1, 2}
INVARIANT Laws
CHECK_DEADLOCK FALSE
