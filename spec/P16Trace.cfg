SPECIFICATION HSpec
CONSTANTS InitSt <- Init16
          Step <- Step16
CHECK_DEADLOCK FALSE
