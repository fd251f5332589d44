SPECIFICATION Spec
INVARIANT Same
CHECK_DEADLOCK FALSE
