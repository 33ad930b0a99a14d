SPECIFICATION Spec
INVARIANT AnswerIsFresh
INVARIANT CacheSound
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS
 Rules = {1, 2, 3, 4}
 Starts = {0, 1}
 Ends = {1, 3, 6}
 Maxes = {0, 1, 2, 4}
 MaxObjs = 2
 Depth = 7
 Emit = FALSE
