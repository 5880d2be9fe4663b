SPECIFICATION Spec
CONSTANTS Syms <- SymsC
 MaxLen = 5
INVARIANTS Prefix Complete
CHECK_DEADLOCK FALSE
