SPECIFICATION Spec
CONSTANTS Depth = 4
INVARIANTS Known Collect
POSTCONDITION Write
CHECK_DEADLOCK FALSE
