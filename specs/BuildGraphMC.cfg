SPECIFICATION MSpec
INVARIANTS Once AllIn Includes Defines Linked Ordered Kinds
CHECK_DEADLOCK FALSE
