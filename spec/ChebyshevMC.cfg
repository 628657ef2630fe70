SPECIFICATION Spec
CONSTANT MaxN = 16
INVARIANTS DerivativeIdentity DerCoefMatches TransformPair ModeValues LowPassOK DerExact Ends
CHECK_DEADLOCK FALSE
