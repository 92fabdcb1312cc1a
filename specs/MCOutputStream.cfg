SPECIFICATION OSpec
CONSTANT MaxBytes = 6
INVARIANTS NoLoss Bounded ClosedDelivered
PROPERTY Sticky
CHECK_DEADLOCK FALSE
