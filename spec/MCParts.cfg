CONSTANTS
  MaxNid = 32
  Design = @DESIGN@
  Size = @SIZE@
INIT Init
NEXT Next
INVARIANTS Faithful @MORE@
CHECK_DEADLOCK FALSE
