SPECIFICATION HSpec
CONSTANTS InitSt <- Init27
          Step <- Step27
CHECK_DEADLOCK FALSE
