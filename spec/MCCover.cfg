CONSTANT MaxNid = 32
SPECIFICATION Spec
INVARIANTS Covered EndsWell
CHECK_DEADLOCK FALSE
