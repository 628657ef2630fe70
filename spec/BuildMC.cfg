CONSTANTS
  Units = {"grid", "main", "sphere"}
  CleanFirst = TRUE
SPECIFICATION Spec
INVARIANTS Configured Recompiled RuleSound
CHECK_DEADLOCK FALSE
