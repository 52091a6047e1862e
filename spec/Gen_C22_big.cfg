SPECIFICATION Spec
CONSTANTS Extra = 2
INVARIANTS Sound Collect
POSTCONDITION Write
CHECK_DEADLOCK FALSE
