SPECIFICATION Spec
CONSTANTS
  MaxN = 7
INVARIANTS TypeOK Peelable OrbitOK SubsOK OnlySites Complete
CHECK_DEADLOCK FALSE
