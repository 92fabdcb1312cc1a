CONSTANTS
  NT = 5
  NM = 5
  NonRec = {4}
  NS = 2
  NR = 2
  NE = 2
  NC = 4
  NA = 3
  NL = 2
SPECIFICATION TSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
