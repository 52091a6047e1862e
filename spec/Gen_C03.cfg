SPECIFICATION Spec
CONSTANTS Depth = 2  NPerm = 3
INVARIANTS AlwaysCoherent EqConsistent EqAdj Collect
POSTCONDITION Write
CHECK_DEADLOCK FALSE
