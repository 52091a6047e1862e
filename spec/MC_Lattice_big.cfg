SPECIFICATION Spec
CONSTANT Bound = 20
INVARIANTS TypeOK Representative Centred Idempotent Counted AdjSym AdjClass PhaseHerm Twist
CHECK_DEADLOCK FALSE
