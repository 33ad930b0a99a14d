SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxT = 4
 MaxN = 3
INVARIANTS Covers Disjoint Ordered
