SPECIFICATION Spec
INVARIANTS Refilled Apart
CHECK_DEADLOCK FALSE
