CONSTANT MaxNid = 32
SPECIFICATION Spec
INVARIANTS Marked Ended Total
CHECK_DEADLOCK FALSE
