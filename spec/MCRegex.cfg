CONSTANTS
  MaxNid = 32
  RegexModes = {@MODE@}
SPECIFICATION Spec
INVARIANT Same
CHECK_DEADLOCK FALSE
