SPECIFICATION Spec
INVARIANT SameAnswers
CHECK_DEADLOCK FALSE
CONSTANTS
 Ids = {1, 2, 3, 4}
 StdIds = {1, 2}
 Defs = {1, 2, 3}
 Depth = 12
 EmitOn = TRUE
