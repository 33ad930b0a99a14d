SPECIFICATION Spec
CONSTANTS MaxLen = 4
          Rnd = FALSE
CHECK_DEADLOCK FALSE
