SPECIFICATION Spec
CONSTANT MaxL = 4
INVARIANTS Inv InvStart
CHECK_DEADLOCK FALSE
