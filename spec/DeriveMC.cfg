SPECIFICATION Spec
INVARIANTS Accepts Decides DecidesBack Enough
CHECK_DEADLOCK FALSE
