SPECIFICATION HSpec
CONSTANTS InitSt <- Init13
          Step <- Step13
CHECK_DEADLOCK FALSE
