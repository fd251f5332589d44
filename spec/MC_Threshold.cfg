SPECIFICATION Spec
INVARIANTS Exactly Never All Forms
PROPERTIES Monotone NoHelp
CHECK_DEADLOCK FALSE
