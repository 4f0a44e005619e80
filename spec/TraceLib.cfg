CONSTANT MaxNid = 32
SPECIFICATION TraceSpec
POSTCONDITION Post
CHECK_DEADLOCK FALSE
