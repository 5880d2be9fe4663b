SPECIFICATION Spec
CONSTANTS Syms <- SymsC
 MaxLen = 7
INVARIANTS Prefix Complete
CHECK_DEADLOCK FALSE
