SPECIFICATION MCSpec
INVARIANTS Support SlopeIsDerivative FlatEnds
