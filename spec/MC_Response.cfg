SPECIFICATION Spec
CONSTANTS
  MaxE = 2
  Ent <- EntV
  Amps <- AmpsV
  NSp = {1}
INVARIANT Laws
CHECK_DEADLOCK FALSE
