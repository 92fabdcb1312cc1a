SPECIFICATION Spec
INVARIANTS TypeOk SameType NothingAbsent Lossless Alone Owners Foreign Pylon
CHECK_DEADLOCK FALSE
