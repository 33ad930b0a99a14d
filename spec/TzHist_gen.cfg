SPECIFICATION Spec
INVARIANT AnswerIsFresh
CHECK_DEADLOCK FALSE
CONSTANTS
 Years = {1, 2, 3, 5}
 LastB = 3
 MaxObjs = 3
 Depth = 12
 Emit = TRUE
