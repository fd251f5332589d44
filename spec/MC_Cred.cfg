SPECIFICATION Spec
VIEW View
INVARIANT Sound OneWord Presentable
PROPERTY Forward Fallen
CHECK_DEADLOCK FALSE
