SPECIFICATION Spec
VIEW View
INVARIANT Chained StateIsLog GoesOn
CHECK_DEADLOCK FALSE
