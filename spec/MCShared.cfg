CONSTANTS
  Design = @DESIGN@
  Width = @WIDTH@
  Warm = @WARM@
SPECIFICATION Spec
INVARIANTS NoRace Undisturbed @MORE@
CHECK_DEADLOCK FALSE
