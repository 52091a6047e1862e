SPECIFICATION Spec
CONSTANTS Depth = 4
          Fault = 0
INVARIANTS Accepted Noticed Collect
POSTCONDITION Write
CHECK_DEADLOCK FALSE
