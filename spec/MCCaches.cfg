CONSTANTS
  MaxNid = 32
  Design = @DESIGN@
  Fill = @FILL@
  Size = @SIZE@
SPECIFICATION Spec
INVARIANTS Faithful @MORE@
CHECK_DEADLOCK FALSE
