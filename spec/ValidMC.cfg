SPECIFICATION Spec
INVARIANT Repair
CHECK_DEADLOCK FALSE
CONSTANTS
 Types = {"VEVENT", "VTODO", "AVAILABLE", "VALARM", "VJOURNAL"}
 MaxCount = 2
