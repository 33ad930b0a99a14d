SPECIFICATION Spec
CONSTANTS FirstYear = 1753
          LastYear = 3000
INVARIANTS Agree NormAgree
CHECK_DEADLOCK FALSE
