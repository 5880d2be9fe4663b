SPECIFICATION Spec
CONSTANTS Bytes <- BytesC
 MaxLen = 5
 PrintTests = TRUE
INVARIANTS Correct
CHECK_DEADLOCK FALSE
