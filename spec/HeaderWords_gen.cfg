SPECIFICATION Spec
CONSTANTS Pieces <- PiecesW
 MaxPieces = 3
 PrintTests = TRUE
INVARIANTS Correct Prefix
CHECK_DEADLOCK FALSE
