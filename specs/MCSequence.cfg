SPECIFICATION Spec
CONSTANTS BS = 2  MaxLen = 5  Vals = {1, 2}
PROPERTY Refines
INVARIANT OnlyTailEmpty
CHECK_DEADLOCK FALSE
