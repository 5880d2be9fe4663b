SPECIFICATION Spec
CONSTANTS Alpha = {97, 98}
 MaxQ = 3
 MaxT = 6
 PrintTests = TRUE
INVARIANTS Correct
PROPERTIES Progress
CHECK_DEADLOCK TRUE
