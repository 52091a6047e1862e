SPECIFICATION Spec
CONSTANTS Depth = 5
          Fault = 0
INVARIANTS Accepted Noticed Collect
POSTCONDITION Write
CHECK_DEADLOCK FALSE
