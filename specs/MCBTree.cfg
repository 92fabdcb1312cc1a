SPECIFICATION Spec
INVARIANTS Agrees Shaped Sorted
CHECK_DEADLOCK FALSE
CONSTANTS
Cap = 2
KeySet = {1, 2, 3}
MaxItems = 5
