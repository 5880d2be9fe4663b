SPECIFICATION Spec
CONSTANTS MaxChars = 5
 Widths = {1}
 Yields = {1}
 Cap = 12
 Pend = 4
 MaxSpace = 2
 Holds = {TRUE}
 Design = "good"
 PrintTests = TRUE
INVARIANTS RefillHolds InStep

CHECK_DEADLOCK FALSE
