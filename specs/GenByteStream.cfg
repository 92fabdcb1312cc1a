SPECIFICATION GSpec
CONSTANTS
 Depth = 28
 Block = 128
 Datas = {}
 MaxAsk = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
