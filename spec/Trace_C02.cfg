SPECIFICATION TSpec
INVARIANT Finish
CHECK_DEADLOCK FALSE
CONSTANTS
  Verdict <- V_C02
  Advance <- A_C02
  StInit <- S_C02
