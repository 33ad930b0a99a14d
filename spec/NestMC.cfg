SPECIFICATION Spec
CONSTANTS Lines <- MLines
          MaxLen = 6
INVARIANTS Agree Mirror
CHECK_DEADLOCK FALSE
