SPECIFICATION Spec
INVARIANTS Distinct Unrecoverable
CHECK_DEADLOCK FALSE
