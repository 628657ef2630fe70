SPECIFICATION Spec
CONSTANTS Objs = {1, 2, 3, 4}
 Sizes = {1, 2, 3}
 Way = "own"
INVARIANT Right
CHECK_DEADLOCK FALSE
