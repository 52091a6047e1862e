SPECIFICATION Spec
CONSTANTS
  Bound = 3
  Sqr = {1, 2, 3, 4}
  Tri = {2, 3, 4}
  Tilt = {0, 1, 2}
INVARIANT Laws
VIEW View
CHECK_DEADLOCK FALSE
