SPECIFICATION MCSpec
CONSTANT Points <- MCPoints
INVARIANT HeldBack
CONSTRAINT PendBound
CHECK_DEADLOCK FALSE
