SPECIFICATION Spec
INVARIANTS Accepts Agree Symmetric
CHECK_DEADLOCK FALSE
