SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 6
 Ticks = {0, 300, 3600, 90000}
 Reps = {0, 1, 3}
 Ints = {300, 3600}
 Edits = {}
 Emit = FALSE
VIEW View
INVARIANTS Rings Ends
