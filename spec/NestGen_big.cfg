SPECIFICATION Spec
CONSTANTS MaxLen = 5
          Rnd = FALSE
CHECK_DEADLOCK FALSE
