SPECIFICATION Spec
CONSTANTS Alpha = {97, 98}
 MaxQ = 4
 MaxT = 8
 PrintTests = FALSE
INVARIANTS Correct
PROPERTIES Progress
CHECK_DEADLOCK FALSE
