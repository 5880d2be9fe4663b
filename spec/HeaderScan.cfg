SPECIFICATION Spec
CONSTANTS Bytes <- BytesC
 MaxLen = 7
 PrintTests = FALSE
INVARIANTS Correct
CHECK_DEADLOCK FALSE
