SPECIFICATION Spec
CONSTANTS MaxLen = 16
          Rnd = TRUE
CHECK_DEADLOCK FALSE
