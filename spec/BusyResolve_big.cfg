SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxT = 5
 MaxN = 3
INVARIANTS Covers Disjoint Ordered
