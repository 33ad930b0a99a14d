SPECIFICATION HSpec
CONSTANTS InitSt <- Init17
          Step <- Step17
CHECK_DEADLOCK FALSE
