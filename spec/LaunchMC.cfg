SPECIFICATION Spec
CONSTANTS
  Dirs = {"a", "b", "c"}
  Launches = 4
INVARIANTS RunsComplete OneEach NotMixed HomeBetween
PROPERTIES Untouched NeverReused Ends
CHECK_DEADLOCK FALSE
