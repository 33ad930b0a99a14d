SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Types = {"VEVENT", "VTODO", "VJOURNAL"}
 Uids = {1, 2, 3}
 Rids = {1, 2, 3}
 MaxComps = 8
 Depth = 20
 Emit = TRUE
