SPECIFICATION Spec
CONSTANTS Depth = 3
INVARIANTS Known Collect
POSTCONDITION Write
CHECK_DEADLOCK FALSE
