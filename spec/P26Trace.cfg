SPECIFICATION HSpec
CONSTANTS InitSt <- Init26
          Step <- Step26
CHECK_DEADLOCK FALSE
