CONSTANT MaxNid = 32
SPECIFICATION Spec
INVARIANTS SamePlaces ScimIn ScimOn OldIn NewIn OnlyOld OnlyNew
CHECK_DEADLOCK FALSE
