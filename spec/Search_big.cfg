SPECIFICATION Spec
CONSTANTS Alpha = {97, 98}
 MaxQ = 5
 MaxT = 10
 PrintTests = FALSE
INVARIANTS Correct
PROPERTIES Progress
CHECK_DEADLOCK FALSE
