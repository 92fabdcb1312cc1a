SPECIFICATION Spec
CONSTANTS Part = "text"  Alphabet = {97, 34, 123, 125, 91, 58, 44, 10}  MaxLen = 5
INVARIANT QuoteAgrees
INVARIANT IndexAgrees
INVARIANT Laws
CHECK_DEADLOCK FALSE
