SPECIFICATION Spec
CONSTANT MaxL = 3
INVARIANTS Inv InvStart
CHECK_DEADLOCK FALSE
