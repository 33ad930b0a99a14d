SPECIFICATION Spec
PROPERTY Independent
PROPERTY CopyEqual
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxObj = 3
 Depth = 6
 Kinds = {1}
 Emit = FALSE
