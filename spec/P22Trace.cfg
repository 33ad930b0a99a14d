SPECIFICATION HSpec
CONSTANTS InitSt <- Init22
          Step <- Step22
CHECK_DEADLOCK FALSE
