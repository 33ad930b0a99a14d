SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxObj = 3
 Depth = 8
 Kinds = {1, 2, 3}
 Emit = TRUE
