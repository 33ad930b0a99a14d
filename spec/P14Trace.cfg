SPECIFICATION HSpec
CONSTANTS InitSt <- Init14
          Step <- Step14
CHECK_DEADLOCK FALSE
