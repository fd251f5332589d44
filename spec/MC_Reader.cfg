SPECIFICATION Spec
INVARIANTS Exact Before NotStalled Told
CHECK_DEADLOCK FALSE
