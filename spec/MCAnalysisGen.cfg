INIT Init
NEXT Next
CONSTANT Length = 7
CONSTANT LineSet <- AnyLines
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
