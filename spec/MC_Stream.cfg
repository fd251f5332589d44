SPECIFICATION Spec
INVARIANTS InOrder Rest Whole
CHECK_DEADLOCK FALSE
