SPECIFICATION TraceSpec
CONSTANTS
  Threads = {0, 1, 2, 3, 4, 5}
  Batch = TRUE
INVARIANT TypeOK
POSTCONDITION Report
CHECK_DEADLOCK FALSE
