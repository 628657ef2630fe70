CONSTANTS
  Wrong = FALSE
  Shapes = "few"
SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANTS Commutes StepCommutes Linearly GroupLaws
