SPECIFICATION Spec
INVARIANTS Enc Dec Utf Strs Num
CHECK_DEADLOCK FALSE
