SPECIFICATION HSpec
CONSTANTS InitSt <- InitSt_
          Step <- Step_
CHECK_DEADLOCK FALSE
