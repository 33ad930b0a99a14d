SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 9
 Kinds = {"VEVENT", "VTODO"}
 Vals = {0, 1, 2}
 Emit = TRUE
