SPECIFICATION Spec
CONSTANTS Bytes <- BytesC
 MaxLen = 4
 PrintTests = FALSE
INVARIANTS Correct
CHECK_DEADLOCK FALSE
