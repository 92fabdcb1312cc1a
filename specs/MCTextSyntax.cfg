SPECIFICATION MCSpec
CONSTANT Chars <- MCChars
INVARIANT InText
CHECK_DEADLOCK FALSE
