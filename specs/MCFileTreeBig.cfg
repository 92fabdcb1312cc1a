SPECIFICATION Spec
CONSTANTS Depth = 4  MODE = "rename"
INVARIANT TreeStaysTree
INVARIANT CrashKeepsOldOrNew
INVARIANT SavedInTheEnd
INVARIANT MakeDirsAgrees
INVARIANT RemoveAgrees
CHECK_DEADLOCK FALSE
