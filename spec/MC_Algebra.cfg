SPECIFICATION Spec
CONSTANTS
  Ent <- EntV
  MaxE = 3
INVARIANT Laws
CHECK_DEADLOCK FALSE
