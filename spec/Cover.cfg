SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Emit
