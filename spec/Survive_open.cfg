SPECIFICATION Spec
CONSTANTS Tables = {"f", "rho"}
 Rows = 3
 Every = 2
 Steps = 5
 Way = "open"
INVARIANT Survives
PROPERTY OnlyGrows
CHECK_DEADLOCK FALSE
