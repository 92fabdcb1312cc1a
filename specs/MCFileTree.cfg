SPECIFICATION Spec
CONSTANTS Depth = 3  MODE = "rename"
INVARIANT TreeStaysTree
INVARIANT CrashKeepsOldOrNew
INVARIANT SavedInTheEnd
INVARIANT MakeDirsAgrees
INVARIANT RemoveAgrees
CHECK_DEADLOCK FALSE
