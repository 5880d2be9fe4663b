SPECIFICATION XSpec
POSTCONDITION Done
CHECK_DEADLOCK FALSE
