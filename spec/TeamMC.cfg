SPECIFICATION Spec
CONSTANTS Leaves = {1, 2}
 Cells = {1, 2}
 K = 3
 Tree = FALSE
 Half = 0
 ClearAtBarrier = TRUE
INVARIANTS OneDecides SameValues
CHECK_DEADLOCK FALSE
