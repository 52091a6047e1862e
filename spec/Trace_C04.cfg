SPECIFICATION TSpec
INVARIANT Finish
CHECK_DEADLOCK FALSE
CONSTANTS
  Verdict <- V_C04
  Advance <- A_C04
  StInit <- S_C04
