SPECIFICATION Spec
INVARIANTS Kept Apart Valid
CHECK_DEADLOCK FALSE
