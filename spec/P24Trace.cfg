SPECIFICATION HSpec
CONSTANTS InitSt <- Init24
          Step <- Step24
CHECK_DEADLOCK FALSE
