SPECIFICATION Spec
INVARIANT SameAnswers
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS
 Ids = {1, 2, 3}
 StdIds = {1, 2}
 Defs = {1, 2}
 Depth = 6
 EmitOn = FALSE
