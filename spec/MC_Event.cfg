SPECIFICATION Spec
INVARIANTS Eligible Bound Leads Tells
CHECK_DEADLOCK FALSE
