SPECIFICATION TSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANT Datas = {}
CONSTANT MaxAsk = 1
