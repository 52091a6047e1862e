SPECIFICATION Spec
CONSTANTS Depth = 4
          Fault = 2
INVARIANTS Accepted Noticed
CHECK_DEADLOCK FALSE
