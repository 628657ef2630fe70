SPECIFICATION Spec
CONSTANT Sizes = {9, 10, 11, 12, 13, 17, 24}
INVARIANTS DerExact Der2Exact DerSharp FilterExact InRange
CHECK_DEADLOCK FALSE
