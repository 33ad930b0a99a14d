SPECIFICATION HSpec
CONSTANTS InitSt <- Init25
          Step <- Step25
CHECK_DEADLOCK FALSE
