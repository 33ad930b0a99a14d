SPECIFICATION HSpec
CONSTANTS InitSt <- Init30
          Step <- Step30
CHECK_DEADLOCK FALSE
