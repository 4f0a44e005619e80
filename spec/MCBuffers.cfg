CONSTANTS
  MaxNid = 32
  Design = @DESIGN@
  Window = @WINDOW@
  MaxDepth = @DEPTH@
SPECIFICATION Spec
PROPERTIES Lasting Untouched Contained
VIEW core
@EXPORT@
CHECK_DEADLOCK FALSE
