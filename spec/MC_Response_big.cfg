SPECIFICATION Spec
CONSTANTS
  MaxE = 3
  Ent <- EntBig
  Amps <- AmpsBig
  NSp = {1, 2}
INVARIANT Laws
CHECK_DEADLOCK FALSE
