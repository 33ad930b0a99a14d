SPECIFICATION HSpec
CONSTANTS InitSt <- Init19
          Step <- Step19
CHECK_DEADLOCK FALSE
