SPECIFICATION Spec
CONSTANTS W = TRUE  Alphabet = {46, 92, 97, 58}  MaxLen = 4  MaxNames = 3
INVARIANT TextMatchesPlace
INVARIANT Laws
CHECK_DEADLOCK FALSE
