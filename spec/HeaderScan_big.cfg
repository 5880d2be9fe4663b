SPECIFICATION Spec
CONSTANTS Bytes <- BytesW
 MaxLen = 6
 PrintTests = FALSE
INVARIANTS Correct
CHECK_DEADLOCK FALSE
