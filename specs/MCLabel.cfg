SPECIFICATION Spec
CONSTANTS Strings <- AllStrings  MaxPool = 60
INVARIANT EveryLabelReads
INVARIANT EmptyLabel
PROPERTY Refines
CHECK_DEADLOCK FALSE
