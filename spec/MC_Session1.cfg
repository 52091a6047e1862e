SPECIFICATION Spec
CONSTANTS Depth = 4
          Fault = 1
INVARIANTS Accepted Noticed
CHECK_DEADLOCK FALSE
