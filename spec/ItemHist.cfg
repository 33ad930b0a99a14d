SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 4
 Kinds = {"VEVENT", "VTODO", "VJOURNAL"}
 Vals = {0, 1}
 Emit = FALSE
VIEW View
INVARIANTS Says Once Others
