CONSTANTS
  MaxNid = 5
  ScenarioMode = "@MODE@"
  Extra = @EXTRA@
  Less = @CUT@
SPECIFICATION Spec
INVARIANTS @INVS@
CHECK_DEADLOCK FALSE
