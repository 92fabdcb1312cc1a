SPECIFICATION Spec
CONSTANTS MaxObj = 3  ORDER = "take"
INVARIANT NothingDeadIsRead
INVARIANT DestroyedExactly
INVARIANT CountsExact
PROPERTY Refines
CHECK_DEADLOCK FALSE
