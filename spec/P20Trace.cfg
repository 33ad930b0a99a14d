SPECIFICATION HSpec
CONSTANTS InitSt <- Init20
          Step <- Step20
CHECK_DEADLOCK FALSE
