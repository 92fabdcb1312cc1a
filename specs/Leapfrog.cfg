SPECIFICATION Spec
INVARIANTS Exact NoStray Population ChainsOwn Deltas
CHECK_DEADLOCK FALSE
CONSTANTS
Keys = {0, 4, 8, 1, 5, 9, 2, 3}
Size = 4
MaxDelta = 3
Limit = 2
None = None
