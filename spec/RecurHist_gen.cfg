SPECIFICATION Spec
INVARIANT AnswerIsFresh
INVARIANT CacheSound
CHECK_DEADLOCK FALSE
CONSTANTS
 Rules = {1, 2, 3, 4}
 Starts = {0, 1, 2}
 Ends = {1, 2, 3, 4, 6}
 Maxes = {0, 2}
 MaxObjs = 3
 Depth = 14
 Emit = TRUE
