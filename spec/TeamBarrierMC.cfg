SPECIFICATION Spec
CONSTANTS Leaves = {1, 2, 3}
 Cells = {1, 2}
 K = 2
 Tree = FALSE
 Half = 1
 ClearAtBarrier = TRUE
INVARIANTS OneDecides SameValues
CHECK_DEADLOCK FALSE
