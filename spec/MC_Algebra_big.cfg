SPECIFICATION Spec
CONSTANTS
  Ent <- EntBig
  MaxE = 4
INVARIANT Laws
CHECK_DEADLOCK FALSE
