SPECIFICATION Spec
CONSTANTS Most = 9
 MostBlocked = 9
INVARIANTS AsScheduled Complete Distinct
PROPERTY Ends
CHECK_DEADLOCK FALSE
