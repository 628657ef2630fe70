SPECIFICATION Spec
CONSTANT Lines = 2
INVARIANTS FoundIff NameShape WordShape OrderFree
PROPERTIES FirstCounts OthersDoNot
CHECK_DEADLOCK FALSE
