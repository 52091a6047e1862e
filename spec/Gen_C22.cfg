SPECIFICATION Spec
CONSTANTS Extra = 1
INVARIANTS Sound Collect
POSTCONDITION Write
CHECK_DEADLOCK FALSE
