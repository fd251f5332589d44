SPECIFICATION Spec
INVARIANTS Binds Sized Made ReadsBack NeverShort Hurts Reversible
CHECK_DEADLOCK FALSE
