SPECIFICATION MSpec
CONSTANT MaxTime = 2
INVARIANT InvUp
INVARIANT InvComplete
INVARIANT InvBalanced
INVARIANT InvClosed
PROPERTY Once
PROPERTY Lazy
CONSTRAINT Small
CHECK_DEADLOCK FALSE
