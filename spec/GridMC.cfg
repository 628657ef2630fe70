CONSTANTS
  Ns = {9, 12}
  Ls = {1, 2}
  MaxK = 6
SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANTS OnItsOwn Continuous Filtered Powers
