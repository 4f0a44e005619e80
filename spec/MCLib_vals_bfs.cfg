CONSTANTS
  MaxNid = 32
  Scenario = "vals"
  Mach = {"m1"}
  Slot = {"s1", "s2"}
  MaxDepth = @DEPTH@
SPECIFICATION Spec
INVARIANTS TypeOK KindView NormIdempotent Equivalence
PROPERTIES Independent ReadsAreReads FailKeeps SuccessReplaces NormKeepsSource Memoryless
VIEW core
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
