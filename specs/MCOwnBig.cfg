SPECIFICATION Spec
CONSTANTS MaxObj = 4  ORDER = "take"
INVARIANT NothingDeadIsRead
INVARIANT DestroyedExactly
INVARIANT CountsExact
PROPERTY Refines
CHECK_DEADLOCK FALSE
