SPECIFICATION HSpec
CONSTANTS InitSt <- Init15
          Step <- Step15
CHECK_DEADLOCK FALSE
