SPECIFICATION Spec
VIEW View
INVARIANT Listable InForce Sanctioned GoesOn
CHECK_DEADLOCK FALSE
