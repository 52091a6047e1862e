SPECIFICATION TSpec
INVARIANT Finish
CHECK_DEADLOCK FALSE
CONSTANTS
  Verdict <- V_C03
  Advance <- A_C03
  StInit <- S_C03
