SPECIFICATION Spec
CONSTANTS MaxChars = 3
 Widths = {1, 2, 3, 4}
 Yields = {1}
 Cap = 12
 Pend = 4
 MaxSpace = 1
 Holds = {FALSE}
 Design = "good"
 PrintTests = TRUE
INVARIANTS RefillHolds InStep

CHECK_DEADLOCK FALSE
