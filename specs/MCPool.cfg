SPECIFICATION Spec
CONSTANTS MaxLen = 5
INVARIANT FreeListExact
INVARIANT IterExact
INVARIANT OwnedLive
PROPERTY Refines
CHECK_DEADLOCK FALSE
