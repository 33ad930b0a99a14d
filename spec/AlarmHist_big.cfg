SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 8
 Ticks = {0, 300, 3600, 90000}
 Reps = {0, 1, 2, 5}
 Ints = {300, 3600, 86400}
 Edits = {}
 Emit = FALSE
VIEW View
INVARIANTS Rings Ends
