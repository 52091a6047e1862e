SPECIFICATION TSpec
INVARIANT Finish
CHECK_DEADLOCK FALSE
CONSTANTS
  Verdict <- V_C01
  Advance <- A_C01
  StInit <- S_C01
