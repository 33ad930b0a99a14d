SPECIFICATION Spec
CONSTANTS Horizon = 2000
          Intervals = {1, 2, 3, 5}
          StartNos = {1, 2, 3}
INVARIANT Agree
CHECK_DEADLOCK FALSE
