SPECIFICATION PSpec
INVARIANT InOrder
INVARIANT NoneAfterEnd
INVARIANT OnlyAsked
PROPERTY AllEnd
PROPERTY Reaches
CHECK_DEADLOCK FALSE
