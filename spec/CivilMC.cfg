SPECIFICATION Spec
CONSTANTS FirstYear = 1890
          LastYear = 2110
INVARIANTS Agree NormAgree
CHECK_DEADLOCK FALSE
