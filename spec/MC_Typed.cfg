SPECIFICATION Spec
INVARIANTS TypeSafe RightKind ValueKept Smallest FixedForm Refused Injective SizeClass
CHECK_DEADLOCK FALSE
