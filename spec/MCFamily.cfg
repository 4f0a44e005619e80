CONSTANTS
  MaxNid = 32
  MaxOps = @OPS@
SPECIFICATION Spec
INVARIANTS NormOnce NormParses RoundTrip KindFits TextFits Fixed Exported
CHECK_DEADLOCK FALSE
