SPECIFICATION Spec
CONSTANTS Depth = 3  NPerm = 3
INVARIANTS AlwaysCoherent EqConsistent EqAdj Collect
POSTCONDITION Write
CHECK_DEADLOCK FALSE
