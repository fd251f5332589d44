SPECIFICATION Spec
INVARIANTS States Lists OfSuite Least Survives RefusedOnly
CHECK_DEADLOCK FALSE
