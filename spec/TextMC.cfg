SPECIFICATION Spec
CONSTANTS Alpha = {97, 44, 59, 92, 110, 10, 13, 58}
          MaxLen = 4
          W = 4
INVARIANTS TextInv TameInv ListInv
CHECK_DEADLOCK FALSE
