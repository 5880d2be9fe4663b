SPECIFICATION Spec
CONSTANTS Pieces <- PiecesC
 MaxPieces = 4
 PrintTests = FALSE
INVARIANTS Correct Prefix
CHECK_DEADLOCK FALSE
