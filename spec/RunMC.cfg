SPECIFICATION Spec
CONSTANTS Most = 14
 MostBlocked = 0
INVARIANTS AsScheduled Complete Distinct
PROPERTY Ends
CHECK_DEADLOCK FALSE
