SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 8
 Ticks = {0, 300, 3600, 90000}
 Reps = {0, 1, 3}
 Ints = {300, 3600}
 Edits = {"trigger", "triggeron", "repeats", "status", "action", "first", "seen"}
 Emit = TRUE
