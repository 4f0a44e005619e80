CONSTANTS
  MaxNid = 32
  Scenario = "life"
  Mach = {"m1", "m2"}
  Slot = {"s1", "s2"}
  MaxDepth = @DEPTH@
SPECIFICATION Spec
INVARIANTS TypeOK KindView NormIdempotent Equivalence
PROPERTIES ReadsAreReads FailKeeps SuccessReplaces NormKeepsSource Memoryless

ACTION_CONSTRAINT ExportFull
CHECK_DEADLOCK FALSE
