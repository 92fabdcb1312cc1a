SPECIFICATION BSpec
CONSTANTS
 Datas <- MCDatas
 MaxAsk = 6
INVARIANT InRange
PROPERTY Monotone
CHECK_DEADLOCK FALSE
