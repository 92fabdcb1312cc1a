SPECIFICATION Spec
INVARIANTS StandsForTree Kept
CHECK_DEADLOCK FALSE
