SPECIFICATION HSpec
CONSTANTS InitSt <- Init12
          Step <- Step12
CHECK_DEADLOCK FALSE
