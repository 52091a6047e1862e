SPECIFICATION TSpec
INVARIANT Finish
CHECK_DEADLOCK FALSE
CONSTANTS
  Verdict <- V_C05
  Advance <- A_C05
  StInit <- S_C05
