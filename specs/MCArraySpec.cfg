SPECIFICATION Spec
INVARIANTS Unique Known
PROPERTY Quick
CHECK_DEADLOCK FALSE
CONSTANT MaxOps = 5
