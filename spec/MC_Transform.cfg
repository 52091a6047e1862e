SPECIFICATION Spec
CONSTANTS
  Bound = 2
  Sqr = {1, 2, 3}
  Tri = {2, 3}
  Tilt = {0, 1, 2}
INVARIANT Laws
VIEW View
CHECK_DEADLOCK FALSE
