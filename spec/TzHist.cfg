SPECIFICATION Spec
INVARIANT AnswerIsFresh
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS
 Years = {1, 3}
 LastB = 2
 MaxObjs = 2
 Depth = 3
 Emit = FALSE
