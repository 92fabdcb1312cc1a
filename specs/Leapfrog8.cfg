SPECIFICATION Spec
INVARIANTS Exact NoStray Population ChainsOwn Deltas
CHECK_DEADLOCK FALSE
CONSTANTS
Keys = {0, 8, 16, 24, 1, 2, 3, 9}
Size = 8
MaxDelta = 3
Limit = 2
None = None
