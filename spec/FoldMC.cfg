SPECIFICATION Spec
CONSTANTS Alpha = {97, 32, 195, 226, 128, 9}
          MaxLen = 5
          W = 4
INVARIANTS FoldInv FoldLive
CHECK_DEADLOCK FALSE
