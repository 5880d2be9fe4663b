SPECIFICATION ASpec
POSTCONDITION Done
CHECK_DEADLOCK FALSE
