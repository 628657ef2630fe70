CONSTANTS
  MaxL = 6
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS PointsOK Textbook RoundTrip FlatTrip Norm ComplexTrip LadderOK GradOK XCutOK Casimir LapOK PowerOK FilterOK LayoutOK LayoutTrip PositionsOK
