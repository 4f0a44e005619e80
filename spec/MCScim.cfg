CONSTANTS
  MaxNid = 32
  Which = @PART@
  MaxSteps = @STEPS@
SPECIFICATION Spec
INVARIANTS TypeOK OneToOne Faithful Canonical EmitTypes
ACTION_CONSTRAINT EmitValues
VIEW View
CHECK_DEADLOCK FALSE
