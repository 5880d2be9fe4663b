SPECIFICATION Spec
CONSTANTS Bytes <- BytesC
 MaxLen = 3
 PrintTests = TRUE
INVARIANTS Correct
CHECK_DEADLOCK FALSE
