SPECIFICATION Spec
INVARIANTS RoundTrip RoundTripB Canonical NoPrefix SameBits BuildExact
CHECK_DEADLOCK FALSE
