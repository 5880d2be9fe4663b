SPECIFICATION PSpec
POSTCONDITION Done
CHECK_DEADLOCK FALSE
