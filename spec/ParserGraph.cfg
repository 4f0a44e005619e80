CONSTANT MaxNid = 32
SPECIFICATION Spec
INVARIANTS Live DoomedIsDead Columns MarksOK Emit
CHECK_DEADLOCK FALSE
