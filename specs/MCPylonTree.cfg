SPECIFICATION Spec
CONSTANTS Part = "tree"  Alphabet = {}  MaxLen = 6
INVARIANT QuoteAgrees
INVARIANT IndexAgrees
INVARIANT Laws
CHECK_DEADLOCK FALSE
