SPECIFICATION HSpec
CONSTANTS InitSt <- Init29
          Step <- Step29
CHECK_DEADLOCK FALSE
