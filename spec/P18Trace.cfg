SPECIFICATION HSpec
CONSTANTS InitSt <- Init18
          Step <- Step18
CHECK_DEADLOCK FALSE
