#!/bin/bash
# (re)generate the Trace_*.cfg files
cd "$(dirname "$0")"
for f in Trace_C*.tla; do
  p=${f#Trace_}; p=${p%.tla}
  cat > Trace_$p.cfg <<X
SPECIFICATION TSpec
INVARIANT Finish
CHECK_DEADLOCK FALSE
CONSTANTS
  Verdict <- V_$p
  Advance <- A_$p
  StInit <- S_$p
X
done
