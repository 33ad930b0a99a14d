SPECIFICATION Spec
INVARIANT IndexMatches
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS
 Types = {"VEVENT", "VTODO"}
 Uids = {1, 2}
 Rids = {1}
 MaxComps = 3
 Depth = 7
 Emit = FALSE
