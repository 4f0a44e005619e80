CONSTANTS
  MaxNid = 32
  Tool = "rmc"
  Depth = @DEPTH@
SPECIFICATION Spec
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
