SPECIFICATION Spec
CONSTANTS Horizon = 1200
          Intervals = {2}
          StartNos = {2}
INVARIANT Agree
CHECK_DEADLOCK FALSE
