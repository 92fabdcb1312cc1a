CONSTANTS
  NT = 3
  NM = 2
  NonRec = {2}
  NS = 0
  NR = 0
  NE = 1
  NC = 0
  NA = 0
  NL = 0
  Wake = "all"
  SecondLook = TRUE
SPECIFICATION MSpec
INVARIANT Explained
INVARIANT NoLostWakeup
CHECK_DEADLOCK FALSE
