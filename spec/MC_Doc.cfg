SPECIFICATION Spec
INVARIANTS Same RoundTrip Padded Local Labels1
CHECK_DEADLOCK FALSE
