SPECIFICATION Spec
CONSTANTS Lines <- MLines
          MaxLen = 7
INVARIANTS Agree Mirror
CHECK_DEADLOCK FALSE
