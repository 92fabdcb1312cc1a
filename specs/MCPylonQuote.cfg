SPECIFICATION Spec
CONSTANTS Part = "quote"  Alphabet = {34, 97, 92, 10, 110}  MaxLen = 7
INVARIANT QuoteAgrees
INVARIANT IndexAgrees
INVARIANT Laws
CHECK_DEADLOCK FALSE
