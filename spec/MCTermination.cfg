SPECIFICATION Spec
CONSTANT Length = 4
CONSTANT LineSet <- CycleLines
PROPERTY Terminates
CHECK_DEADLOCK FALSE
