SPECIFICATION Spec
INVARIANT NoMisuse
CHECK_DEADLOCK FALSE
