CONSTANTS
  Depth = @DEPTH@
  Design = @DESIGN@
SPECIFICATION Spec
INVARIANTS Lasting
@EXPORT@
CHECK_DEADLOCK FALSE
