SPECIFICATION HSpec
CONSTANTS InitSt <- Init28
          Step <- Step28
CHECK_DEADLOCK FALSE
