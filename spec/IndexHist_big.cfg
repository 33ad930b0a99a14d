SPECIFICATION Spec
INVARIANT IndexMatches
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS
 Types = {"VEVENT", "VTODO"}
 Uids = {1, 2, 3}
 Rids = {1, 2}
 MaxComps = 4
 Depth = 9
 Emit = FALSE
