CONSTANTS
  MaxNid = 32
  MaxEdits = @EDITS@
  Wide = @WIDE@
SPECIFICATION Spec
VIEW View
INVARIANTS Spaces WholeText Ascii Again Less Emit
CHECK_DEADLOCK FALSE
