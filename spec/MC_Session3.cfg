SPECIFICATION Spec
CONSTANTS Depth = 4
          Fault = 3
INVARIANTS Accepted Noticed
CHECK_DEADLOCK FALSE
