SPECIFICATION Spec
CONSTANT Steps = 2
INVARIANTS StepIsRK4 OldLevelKept
PROPERTY ShiftCopies
