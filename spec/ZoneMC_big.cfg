CONSTANT Deep = TRUE
INIT Init
NEXT Next
INVARIANTS Ordered Chained Shown Ends Split Cut Around
CHECK_DEADLOCK FALSE
