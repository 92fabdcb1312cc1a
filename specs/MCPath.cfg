SPECIFICATION Spec
CONSTANTS W = FALSE  Alphabet = {46, 47, 97}  MaxLen = 4  MaxNames = 3
INVARIANT TextMatchesPlace
INVARIANT Laws
CHECK_DEADLOCK FALSE
