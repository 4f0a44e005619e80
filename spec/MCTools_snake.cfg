CONSTANTS
  MaxNid = 32
  Tool = "snake"
  Depth = @DEPTH@
SPECIFICATION Spec
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
