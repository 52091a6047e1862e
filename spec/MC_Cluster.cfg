SPECIFICATION Spec
CONSTANTS
  MaxN = 6
INVARIANTS TypeOK Peelable OrbitOK SubsOK OnlySites Complete
CHECK_DEADLOCK FALSE
