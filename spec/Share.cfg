SPECIFICATION Spec
INVARIANT Collect
POSTCONDITION Report
CHECK_DEADLOCK FALSE
