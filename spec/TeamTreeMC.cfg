SPECIFICATION Spec
CONSTANTS Leaves = {1, 3, 4}
 Cells = {1, 2}
 K = 2
 Tree = TRUE
 Half = 0
 ClearAtBarrier = TRUE
INVARIANTS OneDecides SameValues
CHECK_DEADLOCK FALSE
