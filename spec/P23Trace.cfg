SPECIFICATION HSpec
CONSTANTS InitSt <- Init23
          Step <- Step23
CHECK_DEADLOCK FALSE
