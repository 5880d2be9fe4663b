SPECIFICATION Spec
CONSTANTS Pieces <- PiecesW
 MaxPieces = 4
 PrintTests = FALSE
INVARIANTS Correct Prefix
CHECK_DEADLOCK FALSE
